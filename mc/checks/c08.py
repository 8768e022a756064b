"""C08: detach removes exactly one subtree and hands it back intact."""
import itertools
from mc import shapes
from mc import zoo
from mc.checks.c06 import REFERENCING
from mc.checks.c06 import check_index
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from mc.treemodel import TreeMachine
from node.behaviors import ChildFactory
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors.alias import PrefixAliaser
from node.interfaces import INode
from plumber import plumbing

TECHNIQUE = ('enumeration of all tree shapes x detached nodes x follow-up '
             'operations on either side, and explicit-state BFS over detach '
             'histories, on the real classes')
LEVEL_NOTE = (
    'Every tree shape up to 4-5 nodes with attributes and values, every node '
    'detached, every pair of follow-up operations on the two sides and every '
    're-insertion point, 16 classes; complete deep comparison of both sides. '
    'Trusts the deep comparison.')
ASSUMPTIONS = ['a node is contained in one place at a time']


@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class AliasedNode(object):
    aliaser = PrefixAliaser('k')


@plumbing(Adopt, Lifecycle, Alias, DefaultInit, Nodify, OdictStorage)
class AliasedLifecycle(object):
    aliaser = PrefixAliaser('k')


@plumbing(Cache, Invalidate, DefaultInit, Nodify, OdictStorage)
class CachedNotAdopting(object):
    pass


@plumbing(Lifecycle, UnicodeAware, DefaultInit, Nodify, OdictStorage)
class NotAdopting(object):
    pass


# detaching is only complete for nodes which are told where they are
CLASSES = dict((n, c) for n, c in REFERENCING.items() if n != 'RefOnly')
for _n in ('BaseNode', 'OrderedNode', 'MyNode', 'OrderedAttributed',
           'OrderedPlain', 'LifecycleNode', 'CachedNode', 'UnicodeNode',
           'FallbackNode', 'UUIDNode', 'GetattrNode', 'EventsNode',
           'AllowingValues', 'OwnAdopting', 'DictValues', 'SubOrdered'):
    CLASSES[_n] = getattr(zoo, _n)
CLASSES['AliasedNode'] = AliasedNode
CLASSES['AliasedLifecycle'] = AliasedLifecycle
CLASSES['CachedNotAdopting'] = CachedNotAdopting
CLASSES['NotAdopting'] = NotAdopting
# which do not adopt children, thus do not name them either
NOADOPT = ('DictValues', 'CachedNotAdopting', 'NotAdopting')


def deep(node, seen=None):
    """Complete observable state of a subtree."""
    if not INode.providedBy(node):
        return ('value', id(node), repr(node))
    attrs = None
    if hasattr(type(node), 'attrs'):
        attrs = [(k, deep(v) if not INode.providedBy(v) else id(v))
                 for k, v in node.attrs.items()]
    return (type(node).__name__, id(node), node.name,
            getattr(node, 'uuid', None),
            attrs, [(k, deep(node[k])) for k in node], len(node))


def has_attrs(cls):
    return hasattr(cls, 'attrs')


def build(cls, shape, name):
    nodes = shapes.build(cls, shape)
    if name in NOADOPT:
        for i, p in enumerate(shape):
            if p >= 0:
                nodes[i].__name__ = shapes.key(i)
                nodes[i].__parent__ = nodes[p]
    if has_attrs(cls):
        for i, n in enumerate(nodes):
            n.attrs['number'] = i
            n.attrs['list'] = [i]
    return nodes


def change(n, node, cls, tag):
    """Follow-up operation number n at node; False if not applicable."""
    if n == 0:
        node['k90' + tag] = cls()
    elif n == 1:
        keys = list(node)
        if not keys:
            return False
        del node[keys[0]]
    elif n == 2:
        keys = list(node)
        if not keys:
            return False
        node[keys[-1]] = cls()
    elif n == 3:
        if not has_attrs(cls):
            return False
        node.attrs['new'] = tag
        del node.attrs['number']
    elif n == 4:
        node.clear()
    elif n == 5:
        if not hasattr(node, 'insertfirst'):
            return False
        node.insertfirst(cls(name='k91' + tag))
    elif n == 6:
        if not list(node):
            return False
        node.detach(list(node)[-1])
    elif n == 7:
        if not hasattr(cls, 'node'):
            return False
        import uuid
        node.uuid = uuid.UUID(int=4711 + ord(tag))
    elif n == 8:
        node.update({'k92' + tag: cls(), 'k93' + tag: cls()})
    return True


NCHANGES = 9


class Detach(Cases):
    """Shape x node x (missing key, follow-ups, re-insertions)."""
    name = 'detach'

    def __init__(self, classes, n, big=()):
        self.classes = classes
        self.shapes = shapes.upto(n, 2) + list(big)

    def cases(self):
        for name in self.classes:
            for shape in self.shapes:
                for i in range(1, len(shape)):
                    yield (name, shape, i, 0)
                    if not name.startswith('Aliased'):
                        for odd in (1, 2, 3):
                            yield (name, shape, i, odd)

    def run(self, case):
        with shapes.keyed(shapes.odd(case[3])):
            return self.detach(case)

    def detach(self, case):
        name, shape, i, odd = case
        cls = CLASSES[name]
        nodes = build(cls, shape, name)
        p = shape[i]
        parent, node, key = nodes[p], nodes[i], shapes.key(i)
        before = deep(nodes[0])
        # a missing key
        for missing in ('k77', 'k00'):
            expect('detach of a missing key', outcome(parent.detach, missing),
                   ('raise', KeyError))
            if deep(nodes[0]) != before:
                fail('detach of a missing key changed the tree')
        mine = deep(node)
        # everything but the detached node
        want = self.without(before, id(node))
        got = outcome(parent.detach, key)
        expect('detach', got, ('is', node))
        if deep(nodes[0]) != want:
            fail('detach left %r, expected %r', deep(nodes[0]), want)
        after = deep(node)
        if after[0:2] + after[3:] != mine[0:2] + mine[3:]:
            fail('detached node changed from %r to %r', mine, after)
        part = [nodes[j] for j in shapes.below(shape, i)]
        rest = [n for n in nodes if all(n is not x for x in part)]
        for n in part[1:]:
            j = [k for k, x in enumerate(nodes) if x is n][0]
            if n.parent is not nodes[shape[j]] or n.name != shapes.key(j):
                fail('descendant %r lost its place', n)
        if key in parent or parent.get(key) is not None:
            fail('detached key is still contained')
        expect('second detach', outcome(parent.detach, key),
               ('raise', KeyError))
        if cls in REFERENCING.values():
            check_index(rest, part, 'detached')
            check_index(part, rest, 'detached')
        # re-insert everywhere, ends up adopted
        for target in rest + [cls(name='other')]:
            for k in ('k50', key):
                if k in target:
                    continue
                had = deep(target)
                expect('re-insertion', outcome(target.__setitem__, k, node),
                       ('any',))
                if target[k] is not node:
                    fail('re-inserted node is not found')
                if name not in NOADOPT:
                    if node.name != k or node.parent is not target:
                        fail('re-inserted node has name %r, parent %r',
                             node.name, node.parent)
                    if target.path + [k] != node.path or \
                            node.root is not target.root:
                        fail('re-inserted node has path %r', node.path)
                now = deep(node)
                if now[4:] != mine[4:]:
                    fail('re-insertion changed the subtree')
                expect('detach again', outcome(target.detach, k),
                       ('is', node))
                if deep(target) != had:
                    fail('detach after re-insertion left traces')
        return name

    def without(self, tree, ident):
        if tree[0] == 'value':
            return tree
        kids = [(k, self.without(v, ident)) for k, v in tree[5]
                if v[1] != ident]
        return tree[:5] + (kids, len(kids))


class Independent(Cases):
    """Changes on one side do not show on the other."""
    name = 'independence'

    def __init__(self, classes, n):
        self.classes = classes
        self.shapes = shapes.upto(n, 2)

    def cases(self):
        for name in self.classes:
            for shape in self.shapes:
                for i in range(1, len(shape)):
                    for where in ('detached', 'rest', 'both'):
                        for a in range(NCHANGES):
                            yield (name, shape, i, where, a, 0)
                            if a < 2 and not name.startswith('Aliased'):
                                for odd in (1, 2):
                                    yield (name, shape, i, where, a, odd)

    def run(self, case):
        with shapes.keyed(shapes.odd(case[5])):
            return self.independent(case)

    def independent(self, case):
        name, shape, i, where, a, odd = case
        cls = CLASSES[name]
        did = None
        part_idx = shapes.below(shape, i)
        rest_idx = [j for j in range(len(shape)) if j not in part_idx]
        for spot in (part_idx if where != 'rest' else rest_idx):
            nodes = build(cls, shape, name)
            nodes[shape[i]].detach(shapes.key(i))
            part = nodes[i]
            if where == 'detached':
                before = deep(nodes[0])
                did = change(a, nodes[spot], cls, 'd')
                if deep(nodes[0]) != before:
                    fail('change in detached subtree shows in the old tree')
            elif where == 'rest':
                before = deep(part)
                did = change(a, nodes[spot], cls, 'r')
                if deep(part) != before:
                    fail('change in the old tree shows in detached subtree')
            else:
                # same change on both sides, then the detached one moves on
                did = change(a, nodes[0], cls, 'x')
                rest = deep(nodes[0])
                change(a, nodes[spot], cls, 'z')
                top = cls(name='top')
                top[shapes.key(i)] = part
                change((a + 1) % NCHANGES, part, cls, 'y')
                if deep(nodes[0]) != rest:
                    fail('changes of the moved subtree show in the old tree')
                if hasattr(cls, 'node') and name in REFERENCING:
                    check_index(self.members(top),
                                self.members(nodes[0]), 'moved')
                    check_index(self.members(nodes[0]),
                                self.members(top), 'moved')
        return 'done' if did else 'n/a'

    def members(self, node):
        out = [node]
        for v in node.values():
            if INode.providedBy(v):
                out += self.members(v)
        return out


class Values(Cases):
    """Detaching values of any kind where such are allowed."""
    name = 'values'

    def cases(self):
        for name in ('AllowingValues', 'RefValues', 'DictValues',
                     'UnicodeNode', 'CachedNode', 'OwnAdopting',
                     'FallbackNode', 'CachedNotAdopting', 'NotAdopting'):
            for v in range(8):
                yield (name, v)

    def run(self, case):
        name, v = case
        cls = CLASSES[name]
        m = cls(name='m')
        val = [None, 0, '', 'x', [], False, object(), {}][v]
        other = cls()
        m['a'] = other
        m['b'] = val
        m['c'] = 5
        expect('detach', outcome(m.detach, 'b'), ('is', val))
        if sorted(m) != ['a', 'c'] or m['a'] is not other or m['c'] != 5:
            fail('detach of a value left %r', list(m.items()))
        expect('detach', outcome(m.detach, 'b'), ('raise', KeyError))
        m['b'] = val
        if m['b'] is not val:
            fail('value not stored again')
        expect('detach', outcome(m.detach, 'a'), ('is', other))
        if sorted(m) != ['b', 'c']:
            fail('detach of a node left %r', list(m.items()))
        return name


class DetachMachine(TreeMachine):
    """Histories of inserts and detaches, comparing attributes as well."""

    def fresh(self):
        s = super(DetachMachine, self).fresh()
        for i, n in enumerate(s.nodes):
            if has_attrs(type(n)):
                n.attrs['number'] = i
        return s

    def check(self, s):
        super(DetachMachine, self).check(s)
        for i, n in enumerate(s.nodes):
            if has_attrs(type(n)) and (
                    list(n.attrs.items()) != [('number', i)]
                    or n.attrs.parent is not n):
                fail('attributes of node%d became %r', i,
                     list(n.attrs.items()))


def tasks(tier):
    deeper = tier == 'thorough'
    names = sorted(CLASSES)
    out = [Detach(names, 5 if deeper else 4,
                  [shapes.chain(7), shapes.star(8)]),
           Independent(names, 4 if deeper else 3), Values()]
    for name in ('Node', 'BaseNode', 'OrderedAttributed', 'LifecycleFull',
                 'AttributedNode', 'CachedFull', 'DictReference', 'RefMixed'):
        cls = CLASSES[name]
        out.append(DetachMachine(
            name, cls, 6 if deeper else 4, npool=4, nroots=1,
            keys=('a', 'b') if deeper else ('a',),
            inserts=('set',), removes=('detach',),
            reference=name in REFERENCING, check_index=True,
            unordered=name in ('BaseNode', 'DictReference')))
    return out
