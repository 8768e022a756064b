"""C28: copies are complete and independent of the original."""
from mc import compose
from mc import env  # noqa: F401
from mc import shapes
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import Storage
from node.interfaces import INode
from node.locking import TreeLock
from node.utils import instance_property
from odict import odict
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
import copy

TECHNIQUE = ('explicit-state search over all histories of writes, copies and '
             'writes to originals and copies; the real objects are compared '
             'with independent models after every step')
LEVEL_NOTE = (
    'Shallow: every stock class and composition, originals with 0 or 2 '
    'children, histories to depth 3 (5) over two keys and up to two copies '
    '(copies of copies included). Deep: trees of up to 4 nodes with '
    'attributes, nested mutable values, order changes, locks and marker '
    'interfaces, histories to depth 3 (4) over up to two copies. All '
    'compositions of up to 3 (4) behaviors over both storages.')
ASSUMPTIONS = ['shallow copies keep sharing what belongs to the children and '
               'the tree: child nodes, attributes, nodespaces, uuid index and '
               'event subscribers; independence is about the items']


class IMark(Interface):
    pass


@plumbing(NodeChildValidate, Adopt, DefaultInit, Nodify, Storage)
class OwnStorage(object):
    """Storage declared on the class itself."""

    @instance_property
    def storage(self):
        return odict()


@plumbing(Cache, zoo.Invalidate, Adopt, DefaultInit, Nodify, DictStorage)
class OuterCache(object):
    """Cache outermost, cached before adoption."""


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Cache,
          zoo.VolatileStorageInvalidate, Reference,
          Order, DefaultInit, Nodify, zoo.OdictStorage)
class CachedAttributed(object):
    pass


CLASSES = [(n, v[0], v[1], v[2]) for n, v in zoo.MAPPINGS.items()
           if n not in ('OwnNode', 'OwnAdopting', 'OwnMapping', 'OwnMissing',
                        'UUIDNode')]
CLASSES += [('OwnStorage', OwnStorage, OwnStorage, True),
            ('OuterCache', OuterCache, None, False),
            ('CachedAttributed', CachedAttributed, CachedAttributed, True)]


class Shallow(Machine):
    """One node, its copies, and the items of each."""
    no_merge = 2
    maxcopies = 2
    keys = ('a', 'b')

    def __init__(self, spec, depth, prefill):
        self.cls, self.factory, self.child, self.ordered = spec
        self.name = 'shallow %s %s' % (self.cls, ' '.join(prefill) or 'empty')
        self.depth = depth
        self.prefill = prefill

    def fresh(self):
        s = State()
        ob = self.factory()
        s.isnode = INode.providedBy(ob)
        s.top = zoo.BaseNode(name='top')
        if s.isnode and self.cls != 'attrs':
            ob.__name__ = 'name'
            ob.__parent__ = s.top
            s.top.__parent__ = zoo.BaseNode(name='above')
        s.obs = [ob]
        s.items = [[]]
        s.loc = [self.location(s, ob)]
        s.n = 0
        s.old = []
        for key in self.prefill:
            val = self.value(s)
            ob[key] = val
            s.items[0].append((key, val))
        return s

    def location(self, s, ob):
        return (ob.__name__, ob.__parent__) if s.isnode else None

    def value(self, s):
        """A child of its own for each use."""
        s.n += 1
        if self.child is not None:
            val = self.child()
        elif s.n % 3 == 0:
            val = [s.n]
        elif s.n % 3 == 1 and self.cls != 'UnicodeNode':
            val = zoo.BaseNode(name='c%d' % s.n)
        else:
            val = u'v%d' % s.n
        s.old.append(val)
        return val

    def ops(self, s):
        for i in range(len(s.obs)):
            have = [k for k, _ in s.items[i]]
            for key in self.keys:
                yield ('set', i, key)
                if key in have:
                    yield ('del', i, key)
            if have:
                yield ('pop', i, have[0])
                yield ('popitem', i)
                yield ('clear', i)
            yield ('update', i)
            if hasattr(s.obs[i], 'insertfirst'):
                if 'z' not in have:
                    yield ('insertfirst', i)
                if len(have) > 1:
                    yield ('swap', i)
            if len(s.obs) <= self.maxcopies:
                yield ('copy', i)

    def put(self, items, key, val, pos=None):
        for n, (k, _) in enumerate(items):
            if k == key:
                items[n] = (key, val)
                return
        items.insert(len(items) if pos is None else pos, (key, val))

    def apply(self, s, op):
        way, i = op[0], op[1]
        ob, items = s.obs[i], s.items[i]
        what = '%s on %s' % (way, 'copy %d' % i if i else 'the original')
        if way == 'copy':
            before = [self.location(s, v) for v in s.old if INode.providedBy(v)] \
                if s.isnode else None
            out = outcome(ob.copy)
            expect(what, out, ('any',))
            new = out[1]
            if s.isnode and before != [self.location(s, v) for v in s.old
                                       if INode.providedBy(v)]:
                fail('%s moved children', what)
            if any(new is o for o in s.obs):
                fail('copy returned an existing object')
            if new.__class__ is not ob.__class__:
                fail('copy of a %s is a %s', ob.__class__, new.__class__)
            s.obs.append(new)
            s.items.append(list(items))
            s.loc.append(s.loc[i])
            return
        if way == 'set':
            val = self.value(s)
            expect(what, outcome(ob.__setitem__, op[2], val), ('any',))
            self.put(items, op[2], val)
        elif way == 'update':
            one, two = self.value(s), self.value(s)
            expect(what, outcome(ob.update, [('b', one), ('c', two)]),
                   ('any',))
            self.put(items, 'b', one)
            self.put(items, 'c', two)
        elif way in ('del', 'pop'):
            val = dict(items)[op[2]]
            if way == 'del':
                expect(what, outcome(ob.__delitem__, op[2]), ('any',))
            else:
                expect(what, outcome(ob.pop, op[2]), ('is', val))
            items[:] = [(k, v) for k, v in items if k != op[2]]
        elif way == 'popitem':
            out = outcome(ob.popitem)
            expect(what, out, ('any',))
            key, val = out[1]
            if dict(items).get(key, s) is not val:
                fail('%s returned %r, items are %r', what, out[1], items)
            items[:] = [(k, v) for k, v in items if k != key]
        elif way == 'clear':
            expect(what, outcome(ob.clear), ('any',))
            items[:] = []
        elif way == 'insertfirst':
            val = self.value(s)
            val.__name__ = 'z'
            expect(what, outcome(ob.insertfirst, val), ('any',))
            items.insert(0, ('z', val))
        elif way == 'swap':
            one, two = items[0], items[-1]
            one[1].__name__, two[1].__name__ = one[0], two[0]
            expect(what, outcome(ob.swap, one[1], two[1]), ('any',))
            items[0], items[-1] = two, one
        else:
            raise AssertionError(op)

    def check(self, s):
        for i, ob in enumerate(s.obs):
            want = s.items[i]
            got = list(ob.items())
            who = 'copy %d' % i if i else 'the original'
            if not self.ordered:
                want = sorted(want, key=lambda kv: kv[0])
                got.sort(key=lambda kv: kv[0])
            if len(got) != len(want) or any(
                    a[0] != b[0] or a[1] is not b[1]
                    for a, b in zip(got, want)):
                fail('%s holds %r, expected %r', who, got, want)
            if len(ob) != len(want) or set(ob) != set(k for k, _ in want):
                fail('%s enumerates %r, expected %r', who, list(ob), want)
            for k in ('a', 'b', 'c', 'z'):
                val = dict(want).get(k, s)
                if (k in ob) is not (val is not s) \
                        or ob.get(k, s) is not val:
                    fail('%s has %r under %r, expected %r', who, ob.get(k, s),
                         k, val)
            if s.isnode:
                name, parent = s.loc[i]
                if ob.__name__ != name or ob.name != name:
                    fail('%s is named %r, expected %r', who, ob.name, name)
                if ob.__parent__ is not parent or ob.parent is not parent:
                    fail('%s has parent %r, expected %r', who, ob.parent,
                         parent)

    def roots(self, s):
        return [s.obs, s.items, s.n % 3, s.top]


# ---------------------------------------------------------------------------
# deep copies
# ---------------------------------------------------------------------------

class Mod(object):
    """Model of one node."""

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name
        self.children = []      # (key, Mod or value)
        self.attrs = []
        self.uuid = None
        self.marked = False

    def clone(self):
        new = Mod(self.cls, self.name)
        new.children = [(k, v.clone() if isinstance(v, Mod)
                         else copy.deepcopy(v)) for k, v in self.children]
        new.attrs = copy.deepcopy(self.attrs)
        new.uuid = self.uuid
        new.marked = self.marked
        return new

    def get(self, key):
        for k, v in self.children:
            if k == key:
                return v


class Deep(Machine):
    """Trees and their deep copies."""
    no_merge = 1
    maxcopies = 2
    max_nodes = 4

    def __init__(self, spec, depth, setup, values=False):
        self.cls, self.factory, self.ordered = spec
        self.name = 'deep %s %s' % (self.cls, len(setup))
        self.depth = depth
        self.setup = setup
        self.values = values

    def fresh(self):
        s = State()
        root = self.factory()
        root.__name__ = 'root'
        m = Mod(root.__class__, 'root')
        m.uuid = getattr(root, 'uuid', None)
        s.trees = [root]
        s.models = [m]
        s.n = 0
        s.gone = []
        for op in self.setup:
            self.apply(s, op)
        return s

    def nodes(self, m, path=()):
        yield path, m
        for k, v in m.children:
            if isinstance(v, Mod):
                for x in self.nodes(v, path + (k,)):
                    yield x

    def at(self, s, t, path):
        node, m = s.trees[t], s.models[t]
        for k in path:
            node, m = node[k], m.get(k)
        return node, m

    def ops(self, s):
        for t, m in enumerate(s.models):
            nodes = list(self.nodes(m))
            for path, x in nodes:
                have = [k for k, _ in x.children]
                for key in ('a', 'b'):
                    if len(nodes) < self.max_nodes or key in have:
                        yield ('set', t, path, key)
                    if key in have:
                        yield ('del', t, path, key)
                if self.values:
                    yield ('value', t, path)
                    if 'v' in have:
                        yield ('mutate value', t, path)
                if x.cls.__name__ in ATTRED:
                    yield ('attr', t, path)
                    if x.attrs:
                        yield ('mutate attr', t, path)
                        yield ('del attr', t, path)
                if len(have) > 1 and 'v' not in have \
                        and hasattr(x.cls, 'swap'):
                    yield ('swap', t, path)
                if not x.marked:
                    yield ('mark', t, path)
                if path:
                    yield ('detach', t, path)
            yield ('lock', t)
            if len(s.trees) <= self.maxcopies:
                yield ('deepcopy', t)
                yield ('copy module', t)

    def apply(self, s, op):
        way, t = op[:2]
        if way in ('deepcopy', 'copy module'):
            root = s.trees[t]
            out = outcome(root.deepcopy if way == 'deepcopy'
                          else lambda: copy.deepcopy(root))
            expect(way, out, ('any',))
            s.trees.append(out[1])
            s.models.append(s.models[t].clone())
            return
        if way == 'lock':
            with TreeLock(s.trees[t]):
                pass
            return
        node, m = self.at(s, t, op[2])
        if way == 'set':
            key = op[3]
            child = self.factory()
            x = Mod(child.__class__, key)
            x.uuid = getattr(child, 'uuid', None)
            old = m.get(key)
            if old is not None and old.uuid:
                s.gone.append(old.uuid)
            expect('set', outcome(node.__setitem__, key, child), ('any',))
            if old is None:
                m.children.append((key, x))
            else:
                m.children = [(k, x if k == key else v)
                              for k, v in m.children]
        elif way in ('del', 'detach'):
            key = op[3] if way == 'del' else op[2][-1]
            if way == 'detach':
                node, m = self.at(s, t, op[2][:-1])
            for _, x in self.nodes(m.get(key)):
                if x.uuid:
                    s.gone.append(x.uuid)
            expect(way, outcome(node.__delitem__ if way == 'del'
                                else node.detach, key), ('any',))
            m.children = [kv for kv in m.children if kv[0] != key]
        elif way == 'value':
            s.n += 1
            val = [s.n, {'k': [s.n]}]
            node['v'] = val
            m.children = [kv for kv in m.children if kv[0] != 'v'] + [
                ('v', copy.deepcopy(val))] if m.get('v') is None else [
                (k, copy.deepcopy(val) if k == 'v' else v)
                for k, v in m.children]
        elif way == 'mutate value':
            s.n += 1
            node['v'][1]['k'].append(s.n)
            m.get('v')[1]['k'].append(s.n)
        elif way == 'attr':
            s.n += 1
            node.attrs['x'] = val = {'l': [s.n], 'n': s.n}
            m.attrs = [('x', copy.deepcopy(val))]
        elif way == 'mutate attr':
            s.n += 1
            node.attrs['x']['l'].append(s.n)
            m.attrs[0][1]['l'].append(s.n)
        elif way == 'del attr':
            del node.attrs['x']
            m.attrs = []
        elif way == 'swap':
            one, two = m.children[0], m.children[-1]
            expect('swap', outcome(node.swap, node[one[0]], node[two[0]]),
                   ('any',))
            m.children[0], m.children[-1] = two, one
        elif way == 'mark':
            alsoProvides(node, IMark)
            m.marked = True
        else:
            raise AssertionError(op)

    # --------------------------------------------------------------- checks
    def check(self, s):
        seen = {}
        for t, (root, m) in enumerate(zip(s.trees, s.models)):
            who = 'copy %d' % t if t else 'the original'
            if root.parent is not None:
                fail('%s has a parent', who)
            members = {}
            self.compare(s, who, seen, members, root, m, None, [], root)
            if hasattr(root, 'index'):
                self.index(s, who, members, root, m)

    def own(self, who, seen, ob, what):
        if id(ob) in seen:
            fail('%s of %s is also %s', what, who, seen[id(ob)][0])
        seen[id(ob)] = ('%s of %s' % (what, who), ob)

    def compare(self, s, who, seen, members, node, m, parent, path, root):
        path = path + [m.name]
        what = 'node %s' % path
        self.own(who, seen, node, what)
        if node.__class__ is not m.cls:
            fail('%s of %s is a %s, expected %s', what, who, node.__class__,
                 m.cls)
        if node.__name__ != m.name or node.name != m.name:
            fail('%s of %s is named %r', what, who, node.name)
        if node.__parent__ is not parent or node.parent is not parent:
            fail('%s of %s has parent %r, expected %r', what, who,
                 node.parent, parent)
        if node.path != path or node.root is not root:
            fail('%s of %s has path %r and root %r', what, who, node.path,
                 node.root)
        if IMark.providedBy(node) is not m.marked:
            fail('%s of %s provides its marker: %r, expected %r', what, who,
                 IMark.providedBy(node), m.marked)
        if m.uuid is not None:
            if node.uuid != m.uuid:
                fail('%s of %s has uuid %r, expected %r', what, who,
                     node.uuid, m.uuid)
            members[m.uuid] = node
        if m.cls.__name__ in ATTRED:
            attrs = node.attrs
            self.own(who, seen, attrs, 'attrs of ' + what)
            if list(attrs.items()) != m.attrs:
                fail('attributes of %s of %s: %r, expected %r', what, who,
                     list(attrs.items()), m.attrs)
            if attrs.parent is not node:
                fail('attributes of %s of %s have parent %r', what, who,
                     attrs.parent)
            for _, v in attrs.items():
                self.own(who, seen, v, 'attribute value of ' + what)
                self.own(who, seen, v['l'], 'attribute list of ' + what)
        got = list(node.items())
        want = m.children
        if not self.ordered:
            got.sort(key=lambda kv: kv[0])
            want = sorted(want, key=lambda kv: kv[0])
        if [k for k, _ in got] != [k for k, _ in want]:
            fail('%s of %s has children %r, expected %r', what, who,
                 [k for k, _ in got], [k for k, _ in want])
        if len(node) != len(want):
            fail('%s of %s has length %r', what, who, len(node))
        for (k, v), (_, x) in zip(got, want):
            if node[k] is not v:
                fail('%s of %s: two objects for %r', what, who, k)
            if isinstance(x, Mod):
                self.compare(s, who, seen, members, v, x, node, path, root)
            else:
                if v != x:
                    fail('value %r of %s of %s is %r, expected %r', k, what,
                         who, v, x)
                for o in (v, v[1], v[1]['k']):
                    self.own(who, seen, o, 'value of ' + what)

    def index(self, s, who, members, root, m):
        gone = [u for u in s.gone if u not in members]
        for path, _ in self.nodes(m):
            node = root
            for k in path:
                node = node[k]
            for u, want in members.items():
                if node.node(u) is not want:
                    fail('%s: node %s finds %r for a uuid, expected its own '
                         '%r', who, path, node.node(u), want)
            for u in gone:
                if node.node(u) is not None:
                    fail('%s: node %s finds a removed node', who, path)

    def roots(self, s):
        return [s.trees, s.models, sorted(map(str, [])), len(s.gone)]


class Stop(BaseException):
    pass


class Watched(object):
    """A value which has something to do, or fails, when it is copied."""
    act = None

    def __reduce_ex__(self, protocol):
        if self.act is not None:
            self.act()
        return (Watched, ())


class Broken(Cases):
    """The original is the same at every moment of being copied, whether the
    copy comes about or fails halfway.
    """
    name = 'broken'
    shapes = [(-1,), (-1, 0), (-1, 0, 0), (-1, 0, 1), (-1, 0, 1, 1)]
    ERRORS = (ValueError, KeyError, AttributeError, Stop)

    def cases(self):
        for c, spec in enumerate(DEEP):
            for n, shape in enumerate(self.shapes):
                for at in range(len(shape)):
                    for where in ('node', 'attr', 'own'):
                        if where == 'attr' and spec[0] not in ATTRED:
                            continue
                        for start in range(len(shape)):
                            for op in ('copy', 'deepcopy', 'deep', 'shallow'):
                                for err in range(len(self.ERRORS) + 1):
                                    if err > 1 and start != at:
                                        continue
                                    yield (c, n, at, where, start, op, err)

    def run(self, case):
        c, n, at, where, start, op, err = case
        name, cls, ordered = DEEP[c]
        state = {}

        class Node(cls):
            def __reduce_ex__(self, protocol):
                if state.get('node') is self:
                    state['act']()
                return super(Node, self).__reduce_ex__(protocol)

        Node.__name__ = cls.__name__
        nodes = shapes.build(Node, self.shapes[n])
        for i, node in enumerate(nodes):
            if name in ATTRED:
                node.attrs['v'] = [i]
            node.own = [i]
        target = nodes[at]
        hits = []

        def act():
            hits.append(1)
            compare('while it is copied')
            if err:
                raise self.ERRORS[err - 1]('not copied')

        if where == 'node':
            state['node'] = target
        else:
            val = Watched()
            if where == 'attr':
                target.attrs['w'] = val
            else:
                target.watched = val
            val.act = act
        state['act'] = act

        def snapshot():
            out = []
            for node in nodes:
                out.append([
                    node.__name__, node.name, id(node.__parent__),
                    [(k, id(v)) for k, v in node.items()],
                    [(k, id(v)) for k, v in node.attrs.items()]
                    if name in ATTRED else None,
                    id(node.own),
                    [id(node.node(o.uuid)) for o in nodes]
                    if hasattr(cls, 'node') else None,
                    node.path, id(node.root)])
            return out

        before = snapshot()

        def compare(what):
            now = snapshot()
            if now != before:
                fail('original is another one %s: %r, expected %r', what,
                     now, before)

        first = nodes[start]
        call = {'copy': getattr(first, 'copy'),
                'deepcopy': first.deepcopy,
                'deep': lambda: copy.deepcopy(first),
                'shallow': lambda: copy.copy(first)}[op]
        got = None
        try:
            got = call()
        except BaseException as e:
            if not err or type(e) is not self.ERRORS[err - 1]:
                raise
        compare('after it was copied')
        if err and hits and got is not None:
            fail('the failure got lost')
        if op in ('deepcopy', 'deep') and start == 0 and not hits:
            fail('not everything was copied')
        # it can be copied again
        state.clear()
        if where != 'node':
            val.act = None
        again = call()
        compare('after it was copied again')
        if list(again.keys()) != list(first.keys()) \
                or type(again) is not type(first) or again is first:
            fail('the second copy is %r', again)
        return op if not hits else 'failed' if err else 'seen'


ATTRED = set(['Node', 'AttributedNode', 'OrderedAttributed', 'LifecycleFull',
              'CachedAttributed'])

DEEP = [
    ('BaseNode', zoo.BaseNode, False), ('OrderedNode', zoo.OrderedNode, True),
    ('Node', zoo.Node, True), ('AttributedNode', zoo.AttributedNode, True),
    ('OwnAdopting', zoo.OwnAdopting, True),
    ('OrderedAttributed', zoo.OrderedAttributed, True),
    ('OrderedReference', zoo.OrderedReference, True),
    ('DictReference', zoo.DictReference, False),
    ('OuterReference', zoo.OuterReference, True),
    ('LifecycleFull', zoo.LifecycleFull, True),
    ('CachedFull', zoo.CachedFull, True),
    ('CachedAttributed', CachedAttributed, True),
    ('GetattrNode', zoo.GetattrNode, True),
    ('EventsNode', zoo.EventsNode, False),
    ('OwnStorage', OwnStorage, True),
    ('FallbackNode', zoo.FallbackNode, True),
]
VALUES = [
    ('AllowingValues', zoo.AllowingValues, True),
    ('CachedNode', zoo.CachedNode, True),
    ('OdictValues', zoo.OdictValues, True),
    ('UnicodeNode', zoo.UnicodeNode, True),
]
SETUP = (('set', 0, (), 'a'), ('set', 0, ('a',), 'b'), ('set', 0, (), 'b'))


COPIES = {
    'copy': lambda node: node.copy(),
    'copy.copy': copy.copy,
    'deepcopy': lambda node: node.deepcopy(),
    'copy.deepcopy': copy.deepcopy,
}
FIXED = [('a', zoo.OrderedReference), ('b', zoo.AttributedNode)]


class Composed(Cases):
    """Copies of whatever can be composed."""

    def __init__(self, length):
        self.name = 'compositions of %d behaviors' % length
        self.length = length

    def cases(self):
        # attributes are changed below the node they belong to
        for seq, storage in compose.selections(self.length,
                                               ['AttributesLifecycle']):
            for how in sorted(COPIES):
                if 'UUIDAware' in seq and how == 'copy':
                    continue
                for filled in (False, True):
                    yield (seq, storage, how, filled)

    def run(self, case):
        seq, storage, how, filled = case
        names = compose.whole(seq, storage)
        try:
            cls = compose.compose(names, factories=FIXED)
        except compose.REFUSED:
            return 'cannot be composed'
        fixed = 'FixedChildren' in names
        top = zoo.BaseNode(name='top')
        node = cls(name='n', parent=None if 'deep' in how else top)
        if filled and not fixed:
            for key, factory in FIXED:
                node[key] = factory(name=key, parent=node) \
                    if 'Adopt' not in names else factory()
        elif filled:
            node['a']['x'] = zoo.AttributedNode()
        if 'Nodespaces' in names and filled and not fixed:
            node['__own__'] = zoo.AttributedNode(name='__own__')
        keys = list(node)
        kids = [node[k] for k in keys]
        new = COPIES[how](node)
        what = '%s of %s' % (how, '+'.join(names))
        if type(new) is not cls or new is node:
            fail('%s is %r', what, new)
        if new.name != 'n' or new.parent is not node.parent:
            fail('%s has name %r and parent %r', what, new.name, new.parent)
        self.holds(node, keys, kids, 'original of ' + what)
        if 'deep' not in how:
            self.holds(new, keys, kids, what)
        else:
            if list(new) != keys:
                fail('%s holds %r instead of %r', what, list(new), keys)
            for key, kid in zip(keys, kids):
                got = new[key]
                if got is kid or type(got) is not type(kid) or \
                        got.name != key or list(got) != list(kid):
                    fail('%s holds %r as %r', what, got, key)
                if got.parent is not new:
                    fail('%s holds a child of %r', what, got.parent)
        if fixed or how == 'copy.copy':
            # which shares the storage itself
            return how
        mine = [new[k] for k in list(new)]
        for one, other, okeys, okids in ((new, node, keys, kids),
                                         (node, new, keys, mine)):
            extra = zoo.AttributedNode(name='z')
            one['z'] = extra
            self.holds(other, okeys, okids, 'other side of ' + what)
            if one['z'] is not extra:
                fail('%s does not hold what was added', what)
            del one['z']
            self.holds(other, okeys, okids, 'other side of ' + what)
        self.holds(new, keys, mine, what)
        return how

    def holds(self, node, keys, kids, what):
        if list(node) != keys or node.keys() != keys:
            fail('%s holds %r instead of %r', what, list(node), keys)
        for key, kid in zip(keys, kids):
            if node[key] is not kid:
                fail('%s holds another %r', what, key)


def tasks(tier):
    quick = tier == 'quick'
    out = [Broken(), Composed(3 if quick else 4)]
    for spec in CLASSES:
        for prefill in ((), ('a', 'b')):
            out.append(Shallow(spec, 3 if quick else 4, prefill))
    for spec in DEEP:
        out.append(Deep(spec, 3 if quick else 4, SETUP))
        if not quick:
            out.append(Deep(spec, 4, ()))
    for spec in VALUES:
        if spec[0] == 'OdictValues':
            continue
        out.append(Deep(spec, 2 if quick else 4, SETUP, values=True))
    return out
