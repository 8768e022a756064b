"""C31: acquire, filtered values and tree printing."""
from mc import env  # noqa: F401
from mc import shapes
from mc import zoo
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.interfaces import INode
from node.interfaces import IOrdered
from node.interfaces import IReference
from node.interfaces import IRoot
from node.utils import UNSET
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import classImplements
from zope.interface import classImplementsOnly
from zope.interface import directlyProvides
from zope.interface import implementer
from zope.interface import noLongerProvides
from zope.interface.declarations import Declaration
import abc
import contextlib
import io
import itertools

TECHNIQUE = ('complete enumeration of trees, placements of interfaces and '
             'classes on their nodes, starting nodes and searched interfaces '
             'and classes; the real results are compared with those computed '
             'from the shape alone')
LEVEL_NOTE = (
    'acquire: all chains of up to 4 (5) nodes over 9 kinds of nodes x 15 '
    'interfaces and classes x every starting node, and all trees of up to 4 '
    '(5) nodes; filtering: all children lists of up to 3 (4) over 12 kinds; '
    'printing: all trees of up to 5 (6) nodes over ordered and unordered '
    'classes, 8 key sets and values of any kind at any node.')
ASSUMPTIONS = ['how a single node is printed is up to its noderepr']


class IA(Interface):
    pass


class IB(IA):
    pass


class IC(Interface):
    pass


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Base(object):
    pass


@implementer(IA)
class WithA(Base):
    pass


@implementer(IB)
class WithB(Base):
    pass


class SubOfB(WithB):
    pass


class Mixin(object):
    pass


class Mixed(Mixin, zoo.AllowingValues):
    pass


class Falsy(Base):
    """A node which is false."""

    def __bool__(self):
        return False


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class Unordered(object):
    pass


def marked_a():
    node = Base()
    alsoProvides(node, IA)
    return node


def marked_bc():
    node = Unordered()
    alsoProvides(node, IB, IC)
    return node


def root_marked():
    node = Falsy()
    alsoProvides(node, IRoot, IC)
    return node


class Virtual(abc.ABC):
    """Its subclasses are registered."""


Virtual.register(WithB)
Virtual.register(Mixin)


class Hooked(abc.ABC):

    @classmethod
    def __subclasshook__(cls, other):
        return other.__name__ in ('Falsy', 'Unordered')


KINDS = [Base, WithA, WithB, SubOfB, Mixed, Falsy, marked_a, marked_bc,
         root_marked]
# what each kind is found by
TARGETS = [
    (IA, (1, 2, 3, 6, 7)), (IB, (2, 3, 7)), (IC, (7, 8)), (IRoot, (8,)),
    (INode, range(9)), (Interface, range(9)), (IReference, ()),
    (Base, (0, 1, 2, 3, 5, 6, 8)), (WithA, (1,)), (WithB, (2, 3)),
    (SubOfB, (3,)), (Mixin, (4,)), (Falsy, (5, 8)), (Unordered, (7,)),
    (object, range(9)), (dict, ()), (IOrdered, (0, 1, 2, 3, 4, 5, 6, 8)),
    (zoo.AllowingValues, (4,)), (Virtual, (2, 3, 4)), (Hooked, (5, 7, 8)),
    # several classes at once
    ((Mixin, WithA), (1, 4)), ((), ()),
]


def acquire_all(shape, kinds, nodes):
    for i, node in enumerate(nodes):
        above = shapes.pathto(shape, i)[:-1][::-1]
        for target, by in TARGETS:
            want = None
            for j in above:
                if kinds[j] in by:
                    want = nodes[j]
                    break
            got = outcome(node.acquire, target)
            expect('node %d of %r, kinds %r: acquire(%s)' % (
                i, shape, kinds, getattr(target, '__name__', target)), got, ('is', want))


class Acquire(Cases):

    def __init__(self, name, all_shapes, kinds):
        self.name = name
        self.shapes = all_shapes
        self.kinds = kinds

    def cases(self):
        for shape in self.shapes:
            for kinds in itertools.product(self.kinds, repeat=len(shape)):
                yield (shape, kinds)

    def run(self, case):
        shape, kinds = case
        it = iter(kinds)
        nodes = shapes.build(lambda: KINDS[next(it)](), shape)
        if sum(kinds) % 2:
            # names do not matter
            nodes[0].__name__ = None
            for i, p in enumerate(shape):
                if p >= 0:
                    nodes[i].__name__ = (None, 0, '', 'root')[
                        (i + sum(kinds) // 2) % 4]
        acquire_all(shape, kinds, nodes)
        # after moving the parts below another root
        top = WithA(name='top')
        top['x'] = nodes[0]
        acquire_all((-1,) + tuple(p + 1 for p in shape), (1,) + kinds,
                    [top] + nodes)
        if len(nodes) > 1:
            part = nodes[0].detach(shapes.key(1))
            other = SubOfB(name='other')
            other[1] = part
            sub = shapes.below(shape, 1)
            new = [-1, 0]
            for j in sub[1:]:
                new.append(sub.index(shape[j]) + 1)
            acquire_all(tuple(new), (3,) + tuple(kinds[j] for j in sub),
                        [other] + [nodes[j] for j in sub])


class Value(object):
    pass


@implementer(IB)
class ValueB(object):
    pass


def value_c():
    val = Value()
    alsoProvides(val, IC)
    return val


class Filter(Cases):
    """Children of every kind below parents of several classes."""
    name = 'filteredvalues'
    VALUES = [lambda: 1, lambda: None, lambda: WithB, Value, ValueB, value_c,
              lambda: [], lambda: IA]
    FOUND = [
        (IA, (1, 2, 3, 6, 7, 13, 17)), (IB, (2, 3, 7, 13, 17)),
        (IC, (7, 8, 14, 17)), (INode, list(range(9)) + [17]), (IReference, ()), (IRoot, (8,)),
        (IOrdered, (0, 1, 2, 3, 4, 5, 6, 8, 17)),
        # everything provides the root of all interfaces
        (Interface, range(18))]

    def __init__(self, size):
        self.size = size

    def cases(self):
        for n in range(self.size + 1):
            for kinds in itertools.product(range(17), repeat=n):
                for parent in range(4 if n < 3 else 1):
                    yield (parent, kinds)

    def run(self, case):
        parent, kinds = case
        node = [Base, Unordered, zoo.CachedNode, Falsy][parent](name='p')
        have = {}
        for n, k in enumerate(kinds):
            val = (KINDS + self.VALUES)[k]()
            # neither sorted nor comparable
            key = ('m', 'c', '', 'z', 'm')[n] if sum(kinds) % 2 \
                else (2, 'b', 1, None, 2)[n]
            node[key] = val
            have[key] = (val, k)
        for step in ('as built', 'after changes'):
            keys = list(node)
            if set(keys) != set(have):
                fail('children %r, expected %r', keys, have)
            for iface, by in self.FOUND:
                want = [have[k][0] for k in keys if have[k][1] in by]
                for way in ('filteredvalues', 'filtereditervalues'):
                    out = outcome(lambda: getattr(node, way)(iface))
                    expect('%s of %s' % (way, kinds), out, ('any',))
                    got = list(out[1])
                    if len(got) != len(want) or any(
                            a is not b for a, b in zip(got, want)):
                        fail('%s(%s) of %s %s: %r, expected %r', way,
                             iface.__name__, kinds, step, got, want)
                if not isinstance(node.filteredvalues(iface), list):
                    fail('filteredvalues is no list')
            if step == 'as built' and len(keys) > 1:
                # remove one, add one
                del node[keys[0]]
                del have[keys[0]]
                new = marked_bc()
                node['new'] = new
                have['new'] = (new, 7)
                last = have[keys[-1]]
                if last[1] == 0:
                    alsoProvides(last[0], IC)
                    alsoProvides(last[0], IB)
                    have[keys[-1]] = (last[0], 17)


def declared():
    """Objects whose interfaces are their own matter, with what they provide.
    """
    def cls(name, base=zoo.AllowingValues, ifaces=(), **members):
        made = type(name, (base,), members)
        if ifaces:
            classImplements(made, *ifaces)
        return made

    def given(*ifaces):
        return property(lambda self: Declaration(*ifaces))

    def only():
        ob = cls('Only', ifaces=(IB,))()
        directlyProvides(ob, IC)
        return ob

    def taken():
        ob = cls('Taken')()
        alsoProvides(ob, IB, IC)
        noLongerProvides(ob, IC)
        return ob

    def late():
        kind = cls('Late')
        ob = kind()
        classImplements(kind, IC)
        return ob

    def exact():
        kind = cls('Exact', ifaces=(IB,))
        classImplementsOnly(kind, IC)
        return kind()

    class Proxy(object):
        """Stands for another object."""

        def __init__(self, ob):
            object.__setattr__(self, '_ob', ob)

        def __getattribute__(self, name):
            return getattr(object.__getattribute__(self, '_ob'), name)

        def __setattr__(self, name, value):
            setattr(object.__getattribute__(self, '_ob'), name, value)

    # interfaces: IA, IB (extends IA), IC
    return [
        ('nothing', cls('Nothing', ifaces=(IB,), __providedBy__=given()),
         ()),
        ('another', cls('Another', ifaces=(IB,), __providedBy__=given(IC)),
         (IC,)),
        ('computed', cls('Computed', __providedBy__=given(IB)), (IA, IB)),
        ('base of it', cls('BaseOf', ifaces=(IC,), __providedBy__=given(IA)),
         (IA,)),
        ('only', only, (IA, IB, IC)),
        ('taken', taken, (IA, IB)),
        ('late', late, (IC,)),
        ('exact', exact, (IC,)),
        ('plain', cls('Plain'), ()),
        ('proxy', lambda: Proxy(WithB(name='x')), (IA, IB)),
        ('proxy of none', lambda: Proxy(cls('Plain')(name='x')), ()),
    ]


class Declared(Cases):
    """What an object provides is asked of the object, not of its class."""
    name = 'declared'

    def cases(self):
        for kinds in itertools.permutations(range(11), 2):
            for parent in range(2):
                yield (parent, kinds)

    def run(self, case):
        parent, kinds = case
        pool = declared()
        obs = [pool[k] for k in kinds]
        vals = [make() for _, make, _ in obs]
        node = (zoo.OdictValues, zoo.AllowingValues)[parent](name='n')
        for i, val in enumerate(vals):
            node['v%d' % i] = val
        node['w'] = 1
        for again in range(2):
            for iface in (IA, IB, IC):
                want = [v for v, (_, _, has) in zip(vals, obs)
                        if iface in has]
                for way in ('filteredvalues', 'filtereditervalues'):
                    got = list(getattr(node, way)(iface))
                    if len(got) != len(want) or any(
                            a is not b for a, b in zip(got, want)):
                        fail('%s(%s) of %s: %r, expected %r', way,
                             iface.__name__, [n for n, _, _ in obs], got,
                             want)
        # one above the other, above a node
        first, second = vals
        first.__parent__ = None
        second.__parent__ = first
        leaf = zoo.BaseNode(name='leaf', parent=second)
        for iface in (IA, IB, IC):
            want = None
            for ob, (_, _, has) in ((second, obs[1]), (first, obs[0])):
                if iface in has:
                    want = ob
                    break
            expect('acquire(%s) below %s' % (
                iface.__name__, [n for n, _, _ in obs]),
                outcome(leaf.acquire, iface), ('is', want))
        return 'ok'


# ---------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------

class Short(Base):
    """Own node representation."""

    @property
    def noderepr(self):
        return 'short %s' % self.name


class Equal(Base):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class Loose(zoo.OdictValues):
    """Children keep their own names and parents, all are false."""

    def __bool__(self):
        return False


PRINTED = [Base, Unordered, zoo.OrderedNode, zoo.BaseNode, Short, zoo.Node,
           zoo.AttributedNode, Equal]
KEYS = [
    ['a', 'b', 'c', 'd', 'e', 'f'],
    ['f', 'e', 'd', 'c', 'b', 'a'],
    ['b', 'a', 'c', 'B', 'A', 'C'],
    [10, 9, 1, 2, 100, 0],
    [1, 'a', None, '0', (1, 2), 2.5],
    [u'ä', u'a', u'z', u'ö', u'\u20ac', u''],
    ['k 1', 'k', 'k 0', 'k%s', '{}', 'k{0}'],
    [UNSET, True, 'x', 'y', False, 'z'],
]
VALS = [None, 0, 'text', [1, {'a': 2}], 'multi\nline', u'\u20ac{}', Base, '%s',
        UNSET, ()]


def lines_of(node, kids, depth, prefix, ordered):
    """Expected lines; kids maps id of node to its list of (key, child)."""
    out = [prefix * depth + node.noderepr]
    items = kids[id(node)]
    if not ordered(node):
        items = sorted(items, key=lambda kv: str(kv[0]))
    for key, val in items:
        if id(val) in kids:
            out += lines_of(val, kids, depth + 2, prefix, ordered)
        else:
            out.append('%s%s: %s' % (prefix * (depth + 2), key, repr(val)))
    return out


def is_ordered(node):
    return not isinstance(node, (Unordered, zoo.BaseNode))


class Print(Cases):
    """Tree prints."""
    name = 'printing'

    def __init__(self, size, full):
        self.size = size
        self.full = full

    def cases(self):
        for shape in shapes.upto(self.size):
            n = len(shape)
            if n <= self.full:
                kindss = itertools.product(range(5), repeat=n)
            else:
                kindss = itertools.product(range(2), repeat=n)
            for kinds in kindss:
                for keys in range(len(KEYS)):
                    for vals in range(3):
                        yield (shape, kinds, keys, vals)
        # homogeneous trees of classes accepting nodes of their kind only
        for shape in shapes.upto(self.size):
            for kind in (2, 3, 5, 6, 7):
                for keys in range(4):
                    yield (shape, (kind,) * len(shape), keys, 0)

    def run(self, case):
        shape, kinds, keys, vals = case
        kids = {}
        nodes = []
        for i, p in enumerate(shape):
            node = PRINTED[kinds[i]]()
            nodes.append(node)
            kids[id(node)] = []
            if p < 0:
                node.__name__ = 'root'
                continue
            key = KEYS[keys][i % 6]
            if isinstance(nodes[p], (zoo.OrderedNode, zoo.BaseNode)) \
                    and not isinstance(key, str):
                key = str(key)
            nodes[p][key] = node
            kids[id(nodes[p])].append((key, node))
        if vals:
            for i, node in enumerate(nodes):
                if isinstance(node, (zoo.OrderedNode, zoo.BaseNode)):
                    continue
                for n in range(vals):
                    key = ('w', 'A')[n]
                    val = VALS[(i * 3 + n + keys) % len(VALS)]
                    node[key] = val
                    items = kids[id(node)]
                    for m, (k, _) in enumerate(items):
                        if k == key:
                            items[m] = (key, val)
                            break
                    else:
                        items.append((key, val))
        for i, node in enumerate(nodes):
            # a value may have replaced nodes
            up, ok = node, True
            while up is not nodes[0]:
                if all(v is not up for _, v in kids[id(up.parent)]):
                    ok = False
                up = up.parent
            if not ok:
                continue
            rep = node.noderepr
            want = 'short %s' % node.name if isinstance(node, Short) else \
                '%s: %s' % (node.__class__, node.name)
            if rep != want:
                fail('noderepr of node %d is %r, expected %r', i, rep, want)
            for args in ({}, {'prefix': '_'}, {'indent': 3},
                         {'indent': 1, 'prefix': '. '}):
                want = ''.join(x + '\n' for x in lines_of(
                    node, kids, args.get('indent', 0), args.get('prefix', ' '),
                    is_ordered))
                out = outcome(node.treerepr, **args)
                expect('treerepr', out, ('any',))
                if out[1] != want:
                    fail('treerepr(%r) of node %d:\n%s\nexpected:\n%s', args,
                         i, out[1], want)
            if i == 0:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    node.printtree()
                want = ''.join(x + '\n' for x in lines_of(
                    node, kids, 0, ' ', is_ordered))
                if buf.getvalue().rstrip('\n') != want.rstrip('\n'):
                    fail('printtree prints:\n%s\nexpected:\n%s',
                         buf.getvalue(), want)


class PrintAgain(Cases):
    """Nodes and values occurring at several places."""
    name = 'printing again'

    def cases(self):
        for a in range(4):
            for b in range(4):
                for c in range(4):
                    for vals in range(len(VALS)):
                        yield (a, b, c, vals)

    def run(self, case):
        a, b, c, vals = case
        kinds = [Equal, Loose, Base, Falsy]
        top, mid, low = kinds[a](name='t'), kinds[b](name='m'), \
            kinds[c](name='l')
        kids = {id(top): [], id(mid): [], id(low): []}
        for node, key, val in (
                (low, 'v', VALS[vals]), (low, 'w', VALS[vals]),
                (mid, 'l', low), (mid, 'v', VALS[vals]),
                (top, 'm', mid), (top, 'x', VALS[vals]),
                (top, 'y', VALS[vals]), (top, 'n', low), (mid, 'o', low)):
            node[key] = val
            kids[id(node)].append((key, val))
        want = ''.join(x + '\n' for x in lines_of(
            top, kids, 0, ' ', is_ordered))
        for _ in range(2):
            if top.treerepr() != want:
                fail('treerepr:\n%s\nexpected:\n%s', top.treerepr(), want)


REPRS = {
    'empty': lambda base: type('Empty', (base,), {'noderepr': ''}),
    'attribute': lambda base: type('Attr', (base,), {'noderepr': 'attr {}'}),
    'property': lambda base: type('Prop', (base,), {'noderepr': property(
        lambda self: 'prop %%s %s' % self.name)}),
    'empty-property': lambda base: type('EmptyProp', (base,), {
        'noderepr': property(lambda self: '')}),
    'lines': lambda base: type('Lines', (base,), {'noderepr': 'a\n  b'}),
    'unicode': lambda base: type('Uni', (base,), {'noderepr': u'\u20ac'}),
    'repr': lambda base: type('Repr', (base,), {
        '__repr__': lambda self: 'own repr',
        '__str__': lambda self: 'own str'}),
    'descriptor': lambda base: type('Descr', (base,), {
        'noderepr': Descr()}),
    'getattr': lambda base: type('Computed', (base,), {
        'noderepr': property(lambda self: self.path_text),
        'path_text': property(lambda self: '/'.join(map(str, self.path)))}),
    'values': lambda base: type('Values', (base,), {
        'noderepr': property(lambda self: '%d children' % len(self))}),
}


class Descr(object):

    def __get__(self, ob, cls=None):
        return 'described %s' % ob.name


def expected_repr(kind, node):
    return {'empty': '', 'attribute': 'attr {}',
            'property': 'prop %%s %s' % node.name, 'empty-property': '',
            'lines': 'a\n  b', 'unicode': u'\u20ac',
            'repr': '%s: %s' % (node.__class__, node.name),
            'descriptor': 'described %s' % node.name,
            'getattr': '/'.join(map(str, node.path)),
            'values': '%d children' % len(node)}[kind]


class Represented(Cases):
    """Nodes representing themselves in every way."""
    name = 'representations'

    def cases(self):
        for a in sorted(REPRS):
            for b in sorted(REPRS):
                for base in range(3):
                    yield (a, b, base)

    def run(self, case):
        a, b, base = case
        base = [Base, Unordered, zoo.OrderedNode][base]
        one, two = REPRS[a](base), REPRS[b](base)
        top = one(name='top')
        top['y'], top['x'] = two(), one()
        top['y']['z'] = one()
        if base is not zoo.OrderedNode:
            top['y']['v'] = ''
        kinds = {top: a, top['y']: b, top['x']: a, top['y']['z']: a}

        def lines(node, depth, prefix):
            out = [prefix * depth + expected_repr(kinds[node], node)]
            items = node.items()
            if base is Unordered:
                items = sorted(items)
            for key, val in items:
                if val == '':
                    out.append("%s%s: ''" % (prefix * (depth + 2), key))
                else:
                    out += lines(val, depth + 2, prefix)
            return out

        def look():
            for node in kinds:
                if node.noderepr != expected_repr(kinds[node], node):
                    fail('noderepr is %r', node.noderepr)
                for indent, prefix in ((0, ' '), (2, '.'), (1, ''), (0, '')):
                    want = ''.join(x + '\n' for x in lines(
                        node, indent, prefix))
                    got = node.treerepr(indent=indent, prefix=prefix)
                    if got != want:
                        fail('treerepr:\n%s\nexpected:\n%s', got, want)
        look()
        # names and children change
        top.__name__ = 'other'
        del top['x']
        kinds = dict((n, k) for n, k in kinds.items() if n.parent is not top
                     or n.name != 'x')
        top['w'] = two()
        kinds[top['w']] = b
        look()


def tasks(tier):
    quick = tier == 'quick'
    n = 4 if quick else 5
    return [
        Acquire('acquire in chains', [shapes.chain(i) for i in
                                      range(1, n + 1)], range(9)),
        Acquire('acquire in trees', shapes.upto(n), range(4 if quick else 6)),
        Filter(3 if quick else 4),
        Print(5 if quick else 6, 3 if quick else 4),
        Declared(),
        PrintAgain(),
        Represented(),
    ]
