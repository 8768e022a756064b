"""C02: location (name, parent, path, root) agrees with the tree."""
from mc import shapes
from mc import zoo
from mc.core import Cases
from mc.core import fail
from mc.treemodel import INSERTS
from mc.treemodel import ORDERED
from mc.treemodel import REMOVES
from mc.treemodel import TreeMachine
from node.utils import node_by_path
import itertools

TECHNIQUE = ('explicit-state BFS over histories of insertions, removals and '
             'subtree moves on the real classes against a tree model')
LEVEL_NOTE = (
    'All histories up to the depth over pools of 3-5 nodes, 2 keys, every '
    'insertion and removal path; location of every node compared with the '
    'model after every step. Trusts the model and the canonicalization.')
ASSUMPTIONS = ['a node is inserted only while no node holds it',
               'no node is inserted below itself, stale parent pointers of '
               'removed nodes included']

PLAIN = ['BaseNode', 'OrderedNode', 'MyNode', 'OwnAdopting',
         'SubOrdered', 'UnicodeNode', 'FallbackNode', 'UnaliasedNode',
         'CachedNode', 'UUIDNode', 'GetattrNode', 'EventsNode',
         'LifecycleNode', 'AllowingValues']
ODD = [(' a', 'a '), (' ', '\n'), ('.', '..'), ('a b', 'A'), ('0', '1'),
       ('%61', 'a?b#c'), ('a\\b', '\ta'), (u'\xe4\u0308', u'\xa0'), ('None', '*'),
       ('root0', 'a'), (None, 0), (('t',), 1.5), (b'a', 'a')]
REF = ['Node', 'AttributedNode', 'OrderedReference', 'DictReference',
       'LifecycleFull', 'CachedFull', 'OuterReference']
ORD = ['Node', 'AttributedNode', 'OrderedPlain', 'OrderedAttributed',
       'LifecycleFull', 'OrderedReference']


class Falsy(zoo.OrderedNode):
    """False although it has children."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


class FalsyFull(zoo.Node):
    """False when it has children."""

    def __bool__(self):
        return not len(self)

    __nonzero__ = __bool__


class Computed(zoo.OrderedNode):
    """Its name is not what is kept."""

    @property
    def name(self):
        return spelled(self.__name__)


class ComputedFull(zoo.Node):
    name = property(lambda self: spelled(self.__name__))


def spelled(name):
    return '<%s>' % name if name else 'unnamed'


class Equal(zoo.OrderedNode):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class App(object):
    """Holds trees without being a node, has no parent."""
    name = 'app'


class Located(object):
    """As well, its parent has none."""
    name = 'located'

    def __init__(self):
        self.__parent__ = App()


class Rootless(object):
    name = 'rootless'
    __parent__ = None


TOPS = {'app': (App, ['app']), 'located': (Located, ['app', 'located']),
        'rootless': (Rootless, ['rootless']), 'none': (lambda: None, [])}


class Below(Cases):
    """Whole trees below objects which are no nodes, moved among them."""
    name = 'below objects'

    def cases(self):
        for name in PLAIN + REF:
            for shape in shapes.upto(4):
                for tops in itertools.product(sorted(TOPS), repeat=2):
                    yield (name, shape, tops)

    def run(self, case):
        name, shape, tops = case
        factory = zoo.MAPPINGS[name][0]
        nodes = [factory() for _ in shape]
        nodes[0].__name__ = 'top'
        paths = [['top']]
        for i, p in enumerate(shape):
            if i:
                nodes[p]['k%d' % i] = nodes[i]
                paths.append(paths[p] + ['k%d' % i])
        for top in tops:
            make, names = TOPS[top]
            nodes[0].__parent__ = parent = make()
            first = nodes[0] if parent is None else parent
            while getattr(first, '__parent__', None) is not None:
                first = first.__parent__
            for node, path in zip(nodes, paths):
                if node.path != names + path:
                    fail('path is %r, expected %r', node.path, names + path)
                if node.root is not first:
                    fail('root of %r is %r', path, node.root)
                if node_by_path(nodes[0], path[1:]) is not node:
                    fail('%r leads elsewhere', path)
            if nodes[0].parent is not parent:
                fail('parent of the top is %r', nodes[0].parent)
        return tops


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for name in PLAIN + REF:
        factory, _, ordered = zoo.MAPPINGS[name]
        common = dict(reference=name in REF, unordered=not ordered,
                      check_index=False, nroots=1)
        # all insertion and removal paths, small pool
        out.append(TreeMachine(
            name + '-ways', factory, 4 if deep else 3, npool=3,
            inserts=INSERTS, removes=REMOVES, **common))
    for name in ['BaseNode', 'OrderedNode', 'Node', 'LifecycleFull',
                 'OwnAdopting', 'CachedNode']:
        factory, _, ordered = zoo.MAPPINGS[name]
        # deeper histories moving nested subtrees between two trees
        out.append(TreeMachine(
            name + '-moves', factory, 6 if deep else 4, npool=4,
            nroots=2, keys=('a',) if name != 'Node' else ('a', 'b'),
            inserts=('set',), removes=('del', 'detach'), refused=False,
            reference=name in REF, unordered=not ordered, check_index=False))
    for name in ORD:
        factory = getattr(zoo, name)
        out.append(TreeMachine(
            name + '-order', factory, 4 if deep else 3, npool=4, nroots=1,
            keys=('a', 'b', 'c') if deep else ('a', 'b'),
            inserts=('set',) + ORDERED,
            removes=('detach', 'pop') if deep else ('detach',),
            refused=deep,
            reference=name in REF, check_index=False))
    # nodes with truth values and comparison of their own
    for cls in (Falsy, FalsyFull, Equal):
        out.append(TreeMachine(
            cls.__name__, cls, 4 if deep else 3, npool=3,
            inserts=('set', 'update', 'setdefault'),
            removes=('pop', 'detach'), refused=False,
            reference=cls is FalsyFull, check_index=False))
    for cls in (Computed, ComputedFull):
        out.append(TreeMachine(
            cls.__name__, cls, 4 if deep else 3, npool=3,
            inserts=('set', 'update', 'setdefault'),
            removes=('pop', 'detach'), refused=False, spell=spelled,
            reference=cls is ComputedFull, check_index=False))
    # keys with special meaning in path notation and markup
    out.append(TreeMachine(
        'OrderedNode-oddkeys', zoo.OrderedNode, 3, npool=3,
        keys=('', '__a', u'\xe4'), inserts=('set',), removes=('detach',),
        refused=False, check_location=True))
    for n, keys in enumerate(ODD):
        out.append(TreeMachine(
            'OrderedNode-odd%d' % n, zoo.OrderedNode, 3, npool=3, keys=keys,
            inserts=('set',), removes=('detach',), refused=False))
    out.append(Below())
    return out
