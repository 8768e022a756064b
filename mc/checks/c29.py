"""C29: uuids of uuid aware nodes and of their deep copies."""
from mc import env  # noqa: F401
from mc import shapes
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import UUIDAware
from node.interfaces import INode
from node.interfaces import IUUIDAware
from plumber import plumbing
import copy
import itertools
import uuid

TECHNIQUE = ('complete enumeration of trees mixing uuid aware nodes, other '
             'nodes and values, with every choice of copied node, settings '
             'and repetition, and explicit-state search over histories of '
             'inserting, copying and setting uuids')
LEVEL_NOTE = (
    'All trees of up to 4 (5) nodes over 5 (6) kinds of nodes, deep copies of '
    'every uuid aware node, of copies and of copies of copies, '
    'set_uuid_for with all flags on every pair of nodes; histories to depth '
    '3 (5).')
ASSUMPTIONS = ['which uuid factory provides the uuids of descendants is left '
               'open, they have to be fresh']


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class Aware(object):
    pass


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, DictStorage)
class AwareSingle(object):
    overwrite_recursiv_on_copy = False


@plumbing(UUIDAware, Nodespaces, Adopt, Attributes, Order, DefaultInit, Nodify,
          OdictStorage)
class AwareFull(object):
    """Outermost, with attributes."""


COUNT = [0]


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class AwareFactory(object):
    """Own factory."""

    def uuid_factory(self):
        COUNT[0] += 1
        return uuid.UUID(int=(1 << 90) + COUNT[0])


@plumbing(UUIDAware, Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class AwareReference(object):
    pass


class SubAware(Aware):
    """Subclass extending construction."""

    def __init__(self, name=None, parent=None):
        super(SubAware, self).__init__(name=name, parent=parent)
        self.constructed = self.uuid


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Plain(object):
    """A node which is not uuid aware though it has a uuid."""

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self.uuid = 'mine'


@plumbing(UUIDAware, DefaultInit, Nodify, OdictStorage)
class AwareLoose(object):
    """Children keep their own names and parents."""


@plumbing(DefaultInit, Nodify, DictStorage)
class PlainLoose(object):
    """Neither uuid aware nor adopting."""


class NoNode(object):
    """A value which looks like a tree of uuid aware nodes."""

    def __init__(self):
        self.uuid = 'value'

    def values(self):
        raise ValueError('not a node')


KINDS = [Aware, AwareSingle, Plain, zoo.BaseNode, AwareFull, AwareFactory,
         SubAware, AwareLoose, PlainLoose]


def is_aware(ob):
    return INode.providedBy(ob) and IUUIDAware.providedBy(ob)


def values(node):
    """Put values into a node."""
    node['value'] = NoNode()
    node['list'] = [1, 'x']
    node['none'] = None
    node['class'] = Aware
    node['uuid'] = uuid.UUID(int=9)


def allows(node):
    return not isinstance(node, zoo.BaseNode)


def has_aware(kinds):
    return any(IUUIDAware.implementedBy(k) for k in kinds)


def walk(node, path=()):
    """Nodes of a tree with their paths."""
    yield path, node
    for k, v in node.items():
        if INode.providedBy(v):
            for x in walk(v, path + (k,)):
                yield x


def at(node, path):
    for k in path:
        node = node[k]
    return node


def check_copy(orig, new, single, used, what, before):
    """new is a deep copy of orig, used are all uuids given so far."""
    got = dict(walk(new))
    want = dict(walk(orig))
    if set(got) != set(want):
        fail('%s has nodes %r, expected %r', what, sorted(got), sorted(want))
    for path, node in sorted(want.items()):
        c = got[path]
        if c is node:
            fail('%s: node %r is shared', what, path)
        if c.__class__ is not node.__class__:
            fail('%s: node %r is a %s', what, path, c.__class__)
        if getattr(node, 'uuid', None) != before[path]:
            fail('%s: uuid of original node %r changed', what, path)
        if not is_aware(node) or (single and path):
            if getattr(c, 'uuid', None) != before[path]:
                fail('%s: uuid of node %r changed from %r to %r', what, path,
                     before[path], getattr(c, 'uuid', None))
        else:
            check_fresh(c, used, '%s: node %r' % (what, path))
        if [k for k in c] != [k for k in node] and \
                sorted(c) != sorted(node):
            fail('%s: node %r has children %r', what, path, list(c))
        if 'value' in node:
            if c['list'] != [1, 'x'] or c['none'] is not None \
                    or c['class'] is not Aware \
                    or c['uuid'] != uuid.UUID(int=9) \
                    or c['value'].uuid != 'value' \
                    or c['value'].__class__ is not NoNode:
                fail('%s: values of node %r changed: %r', what, path,
                     list(c.items()))


def check_fresh(node, used, what):
    if not isinstance(node.uuid, uuid.UUID):
        fail('%s has uuid %r', what, node.uuid)
    if node.uuid in used:
        fail('%s has a uuid which was used before', what)
    used.add(node.uuid)


class Copies(Cases):
    """Deep copies of trees."""
    name = 'deep copies'

    def __init__(self, size, kinds):
        self.size = size
        self.kinds = kinds

    def cases(self):
        for shape in shapes.upto(self.size):
            n = len(shape)
            for kinds in itertools.product(range(len(self.kinds)), repeat=n):
                if not has_aware(self.kinds[k] for k in kinds):
                    continue
                for vals in (False, True) if n < 4 else (sum(kinds) % 2 == 0,):
                    yield (shape, kinds, vals)

    def run(self, case):
        for own in (False, True):
            res = self.play(case, own)
        return res

    def play(self, case, own):
        shape, kinds, vals = case
        it = iter(kinds)
        nodes = shapes.build(lambda: self.kinds[next(it)](), shape)
        if own:
            # every other one set on the instance, to what the class has not
            for node in nodes[::2]:
                if is_aware(node):
                    node.overwrite_recursiv_on_copy = \
                        not node.overwrite_recursiv_on_copy
        used = set()
        for n, node in enumerate(nodes):
            if is_aware(node):
                check_fresh(node, used, 'constructed node %d' % n)
                if isinstance(node, SubAware) \
                        and node.constructed != node.uuid:
                    fail('uuid of constructed node changed')
            if vals and allows(node):
                values(node)
        for i, node in enumerate(nodes):
            if not is_aware(node):
                continue
            single = not node.overwrite_recursiv_on_copy
            before = dict((p, getattr(x, 'uuid', None)) for p, x in walk(node))
            expect('shallow copy of node %d' % i, outcome(node.copy),
                   ('raise', RuntimeError))
            a = node.deepcopy()
            check_copy(node, a, single, used, 'copy of node %d' % i, before)
            b = node.deepcopy()
            check_copy(node, b, single, used, 'second copy of node %d' % i,
                       before)
            mid = dict((p, getattr(x, 'uuid', None)) for p, x in walk(a))
            c = a.deepcopy()
            check_copy(a, c, single, used, 'copy of copy of node %d' % i, mid)
            check_copy_kept(node, before, 'node %d after copies' % i)
        return len(used)


def check_copy_kept(node, before, what):
    for p, x in walk(node):
        if getattr(x, 'uuid', None) != before[p]:
            fail('%s: uuid of %r changed', what, p)


class SetUuid(Cases):
    """set_uuid_for with all flags."""
    name = 'set_uuid_for'

    def __init__(self, size, kinds):
        self.size = size
        self.kinds = kinds

    def cases(self):
        for shape in shapes.upto(self.size):
            n = len(shape)
            for kinds in itertools.product(range(len(self.kinds)), repeat=n):
                for i in range(n):
                    for missing in range(3):
                        yield (shape, kinds, i, missing)

    def run(self, case):
        shape, kinds, i, missing = case
        for form in ((), (True,), (False, True), (True, True),
                     {'override': True}, {'recursiv': True},
                     {'override': True, 'recursiv': True},
                     {'override': False, 'recursiv': False}):
            it = iter(kinds)
            nodes = shapes.build(lambda: self.kinds[next(it)](), shape)
            for node in nodes:
                if allows(node):
                    values(node)
            by = Aware()
            used = set([by.uuid])
            for n, node in enumerate(nodes):
                if is_aware(node):
                    used.add(node.uuid)
                    if missing == 1 or (missing == 2 and n % 2):
                        node.uuid = None
            target = nodes[i]
            before = [getattr(node, 'uuid', None) for node in nodes]
            if isinstance(form, dict):
                by.set_uuid_for(target, **form)
                flags = (form.get('override', False),
                         form.get('recursiv', False))
            else:
                by.set_uuid_for(target, *form)
                flags = (form + (False, False))[:2]
            override, recursiv = flags
            inside = shapes.below(shape, i) if recursiv else [i]
            for n, node in enumerate(nodes):
                what = 'set_uuid_for%r: node %d' % (form, n)
                if n in inside and is_aware(node) and (
                        override or before[n] is None):
                    check_fresh(node, used, what)
                elif getattr(node, 'uuid', None) != before[n]:
                    fail('%s changed from %r to %r', what, before[n],
                         getattr(node, 'uuid', None))
            if by.uuid not in used:
                fail('set_uuid_for changed the called node')


class Construct(Cases):
    """Every way to construct a node."""
    name = 'construction'
    CLASSES = KINDS + [AwareReference, zoo.UUIDNode]

    def cases(self):
        for c in range(len(self.CLASSES)):
            for n in range(1, 5):
                yield (c, n)

    def run(self, case):
        cls = self.CLASSES[case[0]]
        used = set()
        nodes = []
        for i in range(case[1]):
            for node in (cls(), cls('name'), cls(name='name'),
                         cls(name='n', parent=Plain())):
                nodes.append(node)
                if is_aware(node):
                    check_fresh(node, used, 'new node')
        for node in nodes:
            if is_aware(node):
                u = node.uuid
                if node.uuid != u or node.uuid not in used:
                    fail('uuid is not kept')
                if issubclass(cls, AwareFactory) and node.uuid.int < (1 << 90):
                    fail('uuid not from the uuid factory')
                # rebinding the factory on the instance
                mine = uuid.UUID(int=77)
                node.uuid_factory = lambda: mine
                if node.deepcopy().uuid != mine:
                    fail('uuid not from the uuid factory of the copied node')
                if node.uuid != u:
                    fail('copying changed the uuid')


class Histories(Machine):
    """Building, copying and copying the copies."""
    no_merge = 2

    def __init__(self, cls, depth):
        self.cls = cls
        self.name = 'histories %s' % cls.__name__
        self.depth = depth

    def fresh(self):
        s = State()
        s.trees = [self.cls(name='root')]
        s.uuids = [{(): s.trees[0].uuid}]
        s.used = set([s.trees[0].uuid])
        s.n = 0
        return s

    def ops(self, s):
        for t, m in enumerate(s.uuids):
            if len(s.trees) < 4:
                yield ('copy', t)
            for path in sorted(m):
                if len(path) < 2:
                    for key in ('a', 'b'):
                        yield ('add', t, path, key)
                        yield ('value', t, path)
                if path:
                    yield ('del', t, path)
                yield ('renew', t, path)
                if len(s.trees) < 4 and path:
                    yield ('move copy', t, path)

    def drop(self, m, path):
        for p in list(m):
            if p[:len(path)] == path:
                del m[p]

    def apply(self, s, op):
        way, t = op[:2]
        tree, m = s.trees[t], s.uuids[t]
        if way == 'copy':
            new = tree.deepcopy()
            single = not tree.overwrite_recursiv_on_copy
            check_copy(tree, new, single, s.used, 'copy', m)
            s.trees.append(new)
            s.uuids.append(dict((p, x.uuid) for p, x in walk(new)))
            return
        node = at(tree, op[2])
        if way == 'add':
            new = self.cls()
            check_fresh(new, s.used, 'new node')
            path = op[2] + (op[3],)
            node[op[3]] = new
            self.drop(m, path)
            m[path] = new.uuid
        elif way == 'value' and not hasattr(node, 'index'):
            values(node)
        elif way == 'del':
            del at(tree, op[2][:-1])[op[2][-1]]
            self.drop(m, op[2])
        elif way == 'renew':
            tree.set_uuid_for(node, True, False)
            check_fresh(node, s.used, 'node')
            m[op[2]] = node.uuid
        elif way == 'move copy':
            # a detached part becomes a root of its own and is copied
            part = at(tree, op[2][:-1]).detach(op[2][-1])
            part.__parent__ = None
            sub = dict((p[len(op[2]):], u) for p, u in m.items()
                       if p[:len(op[2])] == op[2])
            self.drop(m, op[2])
            new = part.deepcopy()
            check_copy(part, new, not part.overwrite_recursiv_on_copy, s.used,
                       'copy of a part', sub)
            s.trees += [part, new]
            s.uuids += [sub, dict((p, x.uuid) for p, x in walk(new))]

    def check(self, s):
        for t, (tree, m) in enumerate(zip(s.trees, s.uuids)):
            got = dict((p, x.uuid) for p, x in walk(tree))
            if got != m:
                fail('tree %d has uuids %r, expected %r', t, got, m)
            if hasattr(tree, 'index'):
                for p, x in walk(tree):
                    if tree.node(x.uuid) is not x:
                        fail('tree %d does not find node %r', t, p)

    def roots(self, s):
        return [s.trees, s.uuids]


def tasks(tier):
    quick = tier == 'quick'
    out = [Copies(4 if quick else 5, KINDS[:4] if quick else KINDS[:5]),
           Copies(3, KINDS), SetUuid(3 if quick else 4, KINDS[:4]),
           Construct()]
    out[1].name = 'deep copies, all kinds'
    for n in (1, 2):
        for task in (Copies(3, KINDS[:4]), SetUuid(3, KINDS[:3])):
            out.append(shapes.oddly(task, n))
    for cls in (Aware, AwareSingle, AwareFull, AwareFactory, SubAware,
                AwareReference, AwareLoose):
        out.append(Histories(cls, 4 if quick else 5))
    return out
