"""C06: uuid index is exact."""
import itertools
import uuid
from mc import zoo
from mc import shapes
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from mc.treemodel import INSERTS
from mc.treemodel import ORDERED
from mc.treemodel import REMOVES
from mc.treemodel import TreeMachine
from node.behaviors import Adopt
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import FixedChildren
from node.behaviors import Invalidate
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Reference
from odict import odict
from plumber import Behavior
from plumber import override
from plumber import plumb
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over tree histories, and enumeration of all '
             'tree shapes x removals x re-insertions, against a tree model')
LEVEL_NOTE = (
    'Every history up to the depth over pools of 3-4 nodes with all write '
    'paths and uuid assignments; every tree shape up to 5-6 nodes with every '
    'removal and every re-insertion; every uuid looked up from every node '
    'after every step. Trusts the tree model.')
ASSUMPTIONS = ['each node is contained in at most one node at a time',
               'uuids are not None']


@plumbing(NodeChildValidate, Adopt, Reference, DefaultInit, Nodify,
          OdictStorage)
class RefValues(object):
    allow_non_node_childs = True


@plumbing(NodeChildValidate, Adopt, Cache, Invalidate, Reference, DefaultInit,
          Nodify, OdictStorage)
class RefCached(object):
    pass


@plumbing(NodeChildValidate, Reference, DefaultInit, Nodify, OdictStorage)
class RefOnly(object):
    """Children keep their own names and parents."""


class RefFalsy(zoo.Node):
    """Always false."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


class RefEqual(zoo.Node):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, RefEqual)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class SubRef(zoo.Node):

    def __init__(self, name=None, parent=None):
        super(SubRef, self).__init__(name=name, parent=parent)
        self.attrs['x'] = 1


class RefMixed(RefValues):
    """Has a plain value before all children."""
    plain_keys = ('0',)

    def __init__(self, name=None, parent=None):
        super(RefMixed, self).__init__(name=name, parent=parent)
        self['0'] = None


REFERENCING = {
    'Node': zoo.Node, 'AttributedNode': zoo.AttributedNode,
    'OrderedReference': zoo.OrderedReference,
    'DictReference': zoo.DictReference, 'OuterReference': zoo.OuterReference,
    'LifecycleFull': zoo.LifecycleFull, 'CachedFull': zoo.CachedFull,
    'SubRef': SubRef, 'RefValues': RefValues, 'RefCached': RefCached,
    'RefOnly': RefOnly, 'RefFalsy': RefFalsy, 'RefEqual': RefEqual,
    'RefMixed': RefMixed,
}


def check_index(members, others, what, unknown=()):
    """members: exactly the nodes of one tree; others: nodes outside."""
    for node in members:
        for other in members:
            u = other.uuid
            if node.node(u) is not other:
                fail('%s: %r.node(uuid of %r) is %r', what, node.name,
                     other.name, node.node(u))
            index = node.index
            if index[u] is not other or index.get(u) is not other \
                    or u not in index or index.get(u, 1) is not other:
                fail('%s: index of %r does not resolve %r', what, node.name,
                     other.name)
            for form in (int(u), str(int(u)), uuid.UUID(int=int(u))):
                if node.node(form) is not other or index[form] is not other \
                        or index.get(form) is not other \
                        or form not in index:
                    fail('%s: uuid given as %r not resolved', what, form)
        for u in [o.uuid for o in others] + list(unknown):
            if node.node(u) is not None:
                fail('%s: %r resolves the uuid of %r outside its tree', what,
                     node.name, node.node(u))
            index = node.index
            if u in index or index.get(u) is not None \
                    or index.get(u, what) is not what:
                fail('%s: index of %r contains a foreign uuid', what,
                     node.name)
            expect('index[foreign uuid]', outcome(lambda: index[u]),
                   ('raise', KeyError))
            if node.node(int(u)) is not None or int(u) in index \
                    or index.get(int(u), what) is not what:
                fail('%s: integer of a foreign uuid is resolved', what)


REMOVALS = ('del', 'pop', 'popd', 'detach', 'popitem', 'clear', 'overwrite',
            'update', 'attraccess')


def remove(m, key, way, new):
    """Remove child key of m; returns True if new took its place."""
    if way == 'del':
        del m[key]
    elif way == 'pop':
        m.pop(key)
    elif way == 'popd':
        m.pop(key, None)
    elif way == 'detach':
        m.detach(key)
    elif way == 'overwrite':
        m[key] = new
        return True
    elif way == 'update':
        m.update({key: new})
        return True
    elif way == 'attraccess':
        del m.as_attribute_access()[key]
    return False


class Shapes(Cases):
    """Remove any node of any tree in any way, re-insert it anywhere."""
    name = 'shapes'

    def __init__(self, classes, n, big=()):
        self.classes = classes
        self.shapes = shapes.upto(n, 2) + list(big)

    def cases(self):
        for name in self.classes:
            for how in ('down', 'up'):
                for shape in self.shapes:
                    for i in range(1, len(shape)):
                        for way in REMOVALS:
                            yield (name, how, shape, i, way)

    def run(self, case):
        name, how, shape, i, way = case
        cls = REFERENCING[name]
        make = shapes.build if how == 'down' else shapes.build_up
        nodes = make(cls, shape)
        unknown = [uuid.UUID(int=77)]
        stray = cls(name='stray')
        check_index(nodes, [stray], 'built', unknown)
        parent = nodes[shape[i]]
        key = shapes.key(i)
        removed = set(shapes.below(shape, i))
        new = None
        if way == 'attraccess' and not hasattr(parent, 'as_attribute_access'):
            return 'skip'
        if way in ('popitem', 'clear'):
            victims = {}
            for c in shapes.children(shape, shape[i]):
                victims[shapes.key(c)] = shapes.below(shape, c)
            if way == 'clear':
                parent.clear()
                parts = list(victims.values())
            else:
                k, v = parent.popitem()
                if k not in victims or v is not nodes[victims[k][0]]:
                    fail('popitem returned %r', (k, v))
                parts = [victims[k]]
        else:
            new = cls()
            sub = cls()
            new['sub'] = sub
            if not remove(parent, key, way, new):
                new = None
            parts = [sorted(removed)]
        gone = set(x for part in parts for x in part)
        rest = [n for j, n in enumerate(nodes) if j not in gone]
        if new is not None:
            rest += [new, new['sub']]
        outside = [nodes[j] for j in gone]
        check_index(rest, outside, 'after %s' % way, unknown)
        for part in parts:
            mine = [nodes[j] for j in part]
            check_index(mine, rest + [
                o for o in outside if all(o is not x for x in mine)],
                        'removed by %s' % way, unknown)
        # re-insert anywhere in the remaining tree
        part = [nodes[j] for j in parts[0]]
        for at in range(len(rest)):
            target = rest[at]
            target['back'] = part[0]
            others = [o for o in outside
                            if all(o is not x for x in part)]
            check_index(rest + part, others, 're-inserted', unknown)
            del target['back']
            check_index(rest, outside, 'removed again', unknown)
            check_index(part, rest + others, 'removed again', unknown)
        # and the other way round: the tree below the removed part
        part[-1]['under'] = nodes[0] if nodes[0] is not part[0] else stray
        check_index(rest + part, [o for o in outside
                            if all(o is not x for x in part)],
                    'inserted below', unknown)
        return way


class Uuids(Cases):
    """Uuid assignments in trees of any shape."""
    name = 'uuid-assignments'

    def __init__(self, classes, n):
        self.classes = classes
        self.shapes = shapes.upto(n, 1)

    def cases(self):
        for name in self.classes:
            for shape in self.shapes:
                for i in range(len(shape)):
                    for kind in ('fresh', 'same', 'twice', 'back', 'old'):
                        yield (name, shape, i, kind)

    def run(self, case):
        name, shape, i, kind = case
        cls = REFERENCING[name]
        nodes = shapes.build(cls, shape)
        node = nodes[i]
        old = node.uuid
        new = uuid.UUID(int=1234567)
        more = uuid.UUID(int=7654321)
        if kind == 'same':
            node.uuid = old
            check_index(nodes, [], 'same uuid', [new])
        elif kind == 'fresh':
            node.uuid = new
            check_index(nodes, [], 'fresh uuid', [old])
        elif kind == 'twice':
            node.uuid = new
            node.uuid = more
            check_index(nodes, [], 'second uuid', [old, new])
        elif kind == 'back':
            node.uuid = new
            node.uuid = old
            check_index(nodes, [], 'uuid restored', [new])
        else:
            # another node takes over the released uuid
            node.uuid = new
            other = nodes[-1] if nodes[-1] is not node else nodes[0]
            if other is node:
                return 'single'
            prev = other.uuid
            other.uuid = old
            check_index(nodes, [], 'released uuid taken over', [prev])
        if len(nodes) > 1 and i:
            parent = nodes[shape[i]]
            parent.detach(shapes.key(i))
            part = [nodes[j] for j in shapes.below(shape, i)]
            rest = [n for n in nodes if all(n is not x for x in part)]
            check_index(part, rest, 'detached after assignment')
            check_index(rest, part, 'detached after assignment')
        return kind


class Values(Cases):
    """Non-node and non-referencing children take no part in the index."""
    name = 'values'

    def cases(self):
        for kind in ('text', 'none', 'object', 'list', 'class'):
            for way in ('overwrite-value', 'overwrite-node', 'del', 'pop',
                        'clear', 'detach', 'outer', 'detach-outer'):
                yield (kind, way)

    def run(self, case):
        kind, way = case
        root = RefValues(name='root')
        sub = root['sub'] = RefValues()
        child = sub['child'] = RefValues()
        val = {'text': 'x', 'none': None, 'object': object(), 'list': [1],
               'class': RefValues}[kind]
        sub['val'] = val
        nodes = [root, sub, child]
        check_index(nodes, [], 'value stored')
        new = RefValues()
        if way == 'overwrite-value':
            sub['val'] = new
            check_index(nodes + [new], [], way)
        elif way == 'overwrite-node':
            sub['child'] = val
            check_index([root, sub], [child], way)
            check_index([child], [root, sub], way)
        elif way == 'del':
            del sub['val']
            check_index(nodes, [], way)
        elif way == 'pop':
            if sub.pop('val') is not val:
                fail('pop returned another value')
            check_index(nodes, [], way)
        elif way == 'clear':
            sub.clear()
            check_index([root, sub], [child], way)
            check_index([child], [root, sub], way)
        elif way == 'detach':
            if sub.detach('val') is not val:
                fail('detach returned another value')
            check_index(nodes, [], way)
        else:
            if way == 'outer':
                del root['sub']
            else:
                root.detach('sub')
            check_index([root], [sub, child], way)
            check_index([sub, child], [root], way)
            if sub['val'] is not val:
                fail('value lost')
            new['again'] = sub
            check_index([new, sub, child], [root], way)
        return way


class Fill(Behavior):
    """Uses the node, and gives it children, while it is created."""

    @plumb
    def __init__(_next, self, *args, **kw):
        if self.fill_early:
            self.fill()
        _next(self, *args, **kw)
        if not self.fill_early:
            self.fill()


class Filling(object):
    fill_early = False
    todo = ()

    def fill(self):
        self.seen = [self.uuid]
        top = self
        for what in self.todo:
            if what == 'child':
                self['a'] = zoo.Node()
            elif what == 'deep':
                top = self
                for key in ('x', 'y', 'z'):
                    top[key] = zoo.Node()
                    top = top[key]
            elif what == 'sub':
                sub = zoo.Node()
                sub['s'] = zoo.Node()
                self['t'] = sub
            elif what == 'uuid':
                self.uuid = uuid.UUID(int=99)
                self.seen = [self.uuid]
            elif what == 'remove':
                self['gone'] = zoo.Node()
                self.gone = self.detach('gone')
            elif what == 'look':
                if self.node(self.uuid) is not self \
                        or self.uuid not in self.index:
                    fail('not found while created')


FILLS = {}


def filling():
    inner = plumbing(NodeChildValidate, Adopt, Reference, Fill, DefaultInit,
                     Nodify, OdictStorage)
    outer = plumbing(NodeChildValidate, Adopt, Fill, Reference, DefaultInit,
                     Nodify, OdictStorage)

    class Plain(Filling):
        pass

    FILLS['inner'] = inner(type('Inner', (Filling,), {}))
    FILLS['early'] = inner(type('Early', (Filling,), {'fill_early': True}))
    FILLS['outer'] = outer(type('Outer', (Filling,), {}))

    class Sub(Filling, zoo.Node):
        def __init__(self, name=None, parent=None):
            super(Sub, self).__init__(name=name, parent=parent)
            self.fill()

    class Own(Filling, zoo.OrderedReference):
        """Creates itself twice."""

        def __init__(self, name=None, parent=None):
            zoo.OrderedReference.__init__(self, name=name, parent=parent)
            self.fill()

    FILLS['sub'] = Sub
    FILLS['own'] = Own


filling()


class Initial(Cases):
    """Nodes used, and given children, while they are being created."""
    name = 'initial children'

    def cases(self):
        steps = ('child', 'deep', 'sub', 'uuid', 'remove', 'look')
        for name in sorted(FILLS):
            for n in (1, 2, 3):
                for todo in itertools.permutations(steps, n):
                    for then in ('alone', 'insert', 'remove', 'two', 'below'):
                        yield (name, todo, then)

    def all_of(self, node):
        out = [node]
        for child in node.values():
            out += self.all_of(child)
        return out

    def run(self, case):
        name, todo, then = case
        cls = type(name, (FILLS[name],), {'todo': todo})
        node = cls(name='n')
        nodes = self.all_of(node)
        apart = [node.gone] if 'remove' in todo else []
        if node.uuid != node.seen[0]:
            fail('uuid changed while the node was created')
        check_index(nodes, apart, 'created')
        if then == 'alone':
            return then
        root = zoo.Node(name='root')
        root['n'] = node
        check_index([root] + nodes, apart, 'inserted')
        if then == 'remove':
            root.detach('n')
            check_index(nodes, [root] + apart, 'removed')
            check_index([root], nodes + apart, 'removed')
        elif then == 'two':
            if 'uuid' in todo:
                other = cls(name='m')
                expect('a uuid which is there', outcome(
                    root.__setitem__, 'm', other), ('raise', ValueError))
                more = self.all_of(other)
                check_index(more, [root] + apart, 'refused')
            else:
                root['m'] = cls(name='m')
                check_index([root] + nodes + self.all_of(root['m']), apart,
                            'another')
        elif then == 'below':
            for i, at in enumerate(nodes):
                new = at['new'] = zoo.Node()
                check_index([root] + nodes + [new], apart, 'below')
                del at['new']
                check_index([root] + nodes, apart + [new], 'below')
        return then


class Virtual(Behavior):
    """Children come from somewhere else."""

    @override
    def __getitem__(self, key):
        return self.elsewhere()[key]

    @override
    def __iter__(self):
        return iter(self.elsewhere())

    @override
    def __setitem__(self, key, val):
        self.elsewhere()[key] = val

    @override
    def __delitem__(self, key):
        del self.elsewhere()[key]


@plumbing(NodeChildValidate, Reference, Adopt, Virtual, DefaultInit, Nodify)
class RefVirtual(object):
    """Keeps children without a storage."""

    def elsewhere(self):
        return self.__dict__.setdefault('somewhere', odict())


@plumbing(NodeChildValidate, Reference, Adopt, FixedChildren, DefaultInit,
          Nodify)
class RefFixed(object):
    fixed_children_factories = [('f', zoo.OrderedNode), ('g', zoo.BaseNode)]


@plumbing(NodeChildValidate, Reference, Adopt, FixedChildren, DefaultInit,
          Nodify)
class RefEmpty(object):
    fixed_children_factories = ()


class Storageless(Cases):
    """Referencing nodes which have children but no storage."""
    name = 'no storage'
    classes = {'fixed': RefFixed, 'empty': RefEmpty, 'virtual': RefVirtual}

    def cases(self):
        for name in sorted(self.classes):
            for depth in (0, 1, 2):
                for siblings in (False, True):
                    for way in REMOVALS:
                        yield (name, depth, siblings, way)

    def run(self, case):
        name, depth, siblings, way = case
        root = at = zoo.Node(name='root')
        nodes = [root]
        for _ in range(depth):
            at['d'] = zoo.Node()
            at = at['d']
            nodes.append(at)
        if siblings:
            at['0'] = zoo.Node()
            nodes.append(at['0'])
        leaf = self.classes[name]()
        at['x'] = leaf
        part = [leaf]
        if name == 'virtual':
            for key in ('p', 'q'):
                leaf[key] = zoo.Node()
                part.append(leaf[key])
        check_index(nodes + part, [], 'inserted')
        if way == 'attraccess' and not hasattr(at, 'as_attribute_access'):
            return 'skip'
        gone = part
        new = zoo.Node()
        if way in ('popitem', 'clear'):
            getattr(at, way)()
            if way == 'clear' and siblings:
                nodes.pop()
        elif remove(at, 'x', way, new):
            nodes.append(new)
        check_index(nodes, gone, way)
        check_index(part, nodes, way)
        if name != 'virtual':
            if leaf.uuid is None or list(leaf) != [
                    k for k, _ in leaf.fixed_children_factories]:
                fail('children of the removed node: %r', list(leaf))
        root['back'] = leaf
        check_index(nodes + part, [], 'inserted again')
        if name == 'virtual':
            sub = leaf.detach('p')
            check_index(nodes + [leaf, leaf['q']], [sub], 'detached below')
            check_index([sub], nodes + [leaf, leaf['q']], 'detached below')
            leaf['r'] = sub
            check_index(nodes + part, [], 'inserted again below')
        return way


def tasks(tier):
    deep = tier == 'thorough'
    out = [Shapes(sorted(REFERENCING), 4, () if not deep else ()),
           Uuids(sorted(REFERENCING), 4 if deep else 3), Values()]
    big = Shapes(sorted(REFERENCING) if deep else ['Node', 'DictReference'],
                 1, shapes.shapes(5) + (shapes.shapes(6) if deep else []) + [
                     shapes.chain(9), shapes.star(12)])
    big.name = 'shapes-big'
    out.append(big)
    out.append(Initial())
    out.append(Storageless())
    for n in (1, 2):
        for task in out[:2] if deep else [
                Shapes(sorted(REFERENCING), 3), Uuids(sorted(REFERENCING), 2)]:
            out.append(shapes.oddly(task, n))
    for name in sorted(REFERENCING):
        cls = REFERENCING[name]
        ordered = name != 'DictReference'
        out.append(TreeMachine(
            name, cls, 5 if deep else 3, npool=3, reference=True,
            inserts=INSERTS, removes=REMOVES, unordered=not ordered,
            uuids=True, check_location=False, check_index=True))
        # uuids with all bits cleared or set
        for n, special in enumerate((((0, 0), (1, 2 ** 128 - 1)),
                                     ((1, 0), (0, 1)), ((2, 0),))):
            out.append(TreeMachine(
                '%s-special%d' % (name, n), cls, 4 if deep else 3, npool=3,
                keys=('a',), reference=True, inserts=('set',),
                removes=('del', 'detach'), unordered=not ordered,
                refused=False, uuids=n == 0, special=special,
                check_location=False, check_index=True))
    for name in ('Node', 'DictReference', 'LifecycleFull', 'RefCached'):
        cls = REFERENCING[name]
        order = hasattr(cls, 'insertfirst')
        out.append(TreeMachine(
            name + '-moves', cls, 6 if deep else 4, npool=4, nroots=2,
            keys=('a', 'b') if deep else ('a',), inserts=('set',) + (
                ('ifirst', 'iafter') if order else ()),
            removes=('del', 'detach'), reference=True, refused=False,
            unordered=name == 'DictReference', check_location=False,
            check_index=True))
    return out
