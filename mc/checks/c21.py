"""C21: fallback lookups."""
from mc.core import Cases
from mc.core import fail
from mc.core import outcome
from mc.core import describe_exc
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from plumber import plumbing
import itertools

TECHNIQUE = ('complete enumeration of tree configurations, placements of '
             'fallback keys and lookup paths on the real classes, each lookup '
             'compared with an independent reference resolver')
LEVEL_NOTE = (
    'All prefix closed sets of paths over two (three) keys up to depth 3 '
    '(thorough: 4 by size), all placements of fallback keys, present or '
    'missing, on inner nodes, all lookups in all style; plain, attribute and '
    'mixed class trees. Trusts the reference resolver of some 20 lines.')
ASSUMPTIONS = ['an ancestor declares a fallback key by a true value',
               'values other than nodes have no children to look at']


@plumbing(Adopt, Fallback, DefaultInit, Nodify, OdictStorage)
class Plain(object):
    pass


@plumbing(Fallback, NodeChildValidate, Adopt, DefaultInit, Nodify, DictStorage)
class Outermost(object):
    pass


@plumbing(NodeChildValidate, Adopt, Order, Reference, Fallback, DefaultInit,
          Nodify, OdictStorage)
class Full(object):
    pass


class Sub(Plain):
    """Inherits fallback behavior."""


class False_(Plain):
    """Always false."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


class Equal(Plain):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class Unhashable(Equal):
    """Compared by value, thus not hashable."""
    __hash__ = None


@plumbing(Nodespaces, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class FallbackAttributes(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, DefaultInit,
          Nodify, OdictStorage)
class AttrNode(object):
    attributes_factory = FallbackAttributes


class Boring(OrderedNode):
    """No fallback behavior, but it may declare a fallback key."""


def closed(keys, depth):
    """All prefix closed sets of paths: nested tuples of (key, subtree)."""
    if depth == 0:
        return [()]
    sub = [None] + closed(keys, depth - 1)
    out = []
    for combo in itertools.product(sub, repeat=len(keys)):
        out.append(tuple((k, c) for k, c in zip(keys, combo)
                         if c is not None))
    return out


def sized(keys, n, depth):
    """All prefix closed sets of n paths below the root, up to a depth."""
    if n == 0:
        return [()]
    if depth == 0 or not keys:
        return []
    out = []
    first, rest = keys[0], keys[1:]
    # without the first key
    out += [t for t in sized_rest(rest, n, depth)]
    for m in range(n):
        for c in all_sized(m, depth - 1):
            for t in sized_rest(rest, n - 1 - m, depth):
                out.append(((first, c),) + t)
    return out


ALL = {}
KEYS = ['a', 'f']


def all_sized(n, depth):
    if (n, depth) not in ALL:
        ALL[(n, depth)] = sized(KEYS, n, depth)
    return ALL[(n, depth)]


def sized_rest(keys, n, depth):
    if n == 0:
        return [()]
    if not keys:
        return []
    return sized(keys, n, depth)


def paths(tree, at=()):
    out = [at]
    for k, c in tree:
        out += paths(c, at + (k,))
    return out


def text(path):
    return '/'.join([str(x) for x in path])


def renamed(trees, names):
    return [tuple((names.get(k, k), renamed([c], names)[0]) for k, c in t)
            for t in trees]


# other names for the keys of trees: false, odd and equal ones
NAMES = [{'a': ''}, {'a': 0}, {'a': None}, {'a': '/', 'f': ' '},
         {'f': 'root'}, {'a': 'root'}, {'a': 1, 'f': 2},
         {'a': 'f', 'f': 'a'},
         {'a': (), 'f': ('f',)}, {'a': 'fallback_key'}]


class Model(object):
    """parent-of-by-path, children, fallback keys; values by path."""

    def __init__(self):
        self.nodes = set()
        self.values = {}
        self.fb = {}

    def child(self, path, key):
        p = path + (key,)
        return p if p in self.nodes or p in self.values else None

    def resolve(self, path, key):
        """Path of the item found looking up key on the node at path."""
        target = path + (key,)
        got = self.child(path, key)
        if got is not None:
            return got
        tried = set()
        node = path
        while node:
            node = node[:-1]
            fb = self.fb.get(node)
            if not fb or node in tried:
                continue
            tried.add(node)
            cur = node + (fb,)
            if cur not in self.nodes:
                continue
            for name in target[len(cur):]:
                nxt = self.child(cur, name) if cur in self.nodes else None
                if nxt is None:
                    break
                cur = nxt
            else:
                return cur
            # where it failed; a value has no children, it failed there
            node = cur if cur in self.nodes else cur[:-1]
        return None


class Missing(object):
    pass


MISSING = Missing()


def lookup(what, node, key, want):
    """All styles of looking up key on the real node."""
    out = outcome(lambda: node[key])
    if want is MISSING:
        if out[0] == 'ok':
            fail('%s found %r, expected KeyError', what, out[1])
        if not isinstance(out[1], KeyError):
            fail('%s raised %s, expected KeyError', what,
                 describe_exc(out[1]))
        for style, val, exp in [
                ('get', outcome(node.get, key), None),
                ('get default', outcome(node.get, key, MISSING), MISSING),
                ('in', outcome(lambda: key in node), False)]:
            if val[0] != 'ok' or val[1] is not exp:
                fail('%s by %s: %r, expected %r', what, style, val, exp)
        return
    if out[0] != 'ok':
        fail('%s raised %s, expected %r', what, describe_exc(out[1]), want)
    if out[1] is not want:
        fail('%s found %r, expected %r', what, out[1], want)
    for style, val in [('get', outcome(node.get, key)),
                       ('get default', outcome(node.get, key, MISSING))]:
        if val[0] != 'ok' or val[1] is not want:
            fail('%s by %s: %r, expected %r', what, style, val, want)
    # item lookup and membership agree
    val = outcome(lambda: key in node)
    if val[0] != 'ok' or val[1] is not True:
        fail('%s by in: %r, expected True', what, val)


class Trees(Cases):
    """Trees of fallback nodes."""
    chunk = 8
    lookups = ('a', 'f', 'z')

    def __init__(self, name, trees, choices, classes, leaves=False,
                 maxdecl=9, names=None):
        if names:
            trees = renamed(trees, names)
            choices = [names.get(c, c) for c in choices]
            choices = [c for c in choices if c]
            self.lookups = tuple(names.get(c, c) for c in self.lookups)
        self.name = name
        self.trees = trees
        self.choices = choices
        self.classes = classes
        self.leaves = leaves
        self.maxdecl = maxdecl

    per = 100

    def cases(self):
        for i, tree in enumerate(self.trees):
            for j in range(0, len(list(self.placements(tree))), self.per):
                yield (i, j)

    def placements(self, tree):
        inner = [p for p in paths(tree)
                 if self.leaves or any(q[:-1] == p for q in paths(tree) if q)]
        for combo in itertools.product([None] + self.choices,
                                       repeat=len(inner)):
            fb = dict((p, c) for p, c in zip(inner, combo) if c)
            if 0 < len(fb) <= self.maxdecl:
                yield fb

    def build(self, tree, model):
        nodes = {}
        every = paths(tree)
        for p in every:
            model.nodes.add(p)
            cls = self.classes[len(p) % len(self.classes)]
            node = nodes[p] = cls(name='root') if not p else cls()
            if p:
                nodes[p[:-1]][p[-1]] = node
        return nodes

    def shape(self, nodes, classes):
        return [(p, list(n.keys()), n.__name__, n.__parent__,
                 dict(n.__dict__))
                for p, n in sorted(nodes.items(), key=repr)]

    def run(self, case):
        tree = self.trees[case[0]]
        model = Model()
        nodes = self.build(tree, model)
        n = 0
        for fb in itertools.islice(
                self.placements(tree), case[1], case[1] + self.per):
            model.fb = fb
            for p, node in nodes.items():
                if p in fb:
                    node.fallback_key = fb[p]
                elif 'fallback_key' in node.__dict__:
                    del node.fallback_key
            before = self.shape(nodes, None)
            for p in sorted(nodes, key=repr):
                if not isinstance(nodes[p], Plain) \
                        and type(nodes[p]) not in (Outermost, Full):
                    continue
                for key in self.lookups:
                    got = model.resolve(p, key)
                    want = MISSING if got is None else nodes[got]
                    lookup('tree %s, fallback keys %s, /%s [%s]' % (
                        [text(x) for x in sorted(nodes, key=repr)],
                        dict((text(k), v) for k, v in fb.items()),
                        text(p), key), nodes[p], key, want)
                    n += 1
            if self.shape(nodes, None) != before:
                fail('lookups changed the tree')
        return 'lookups'


class AttrTrees(Trees):
    """Trees of nodes with fallback attributes.

    Every node of the tree, every placement of fallback keys, every placement
    of attribute a, b on up to three nodes.
    """
    values = [None, 0, '', 'x', {}, (1,)]

    def cases(self):
        for i, tree in enumerate(self.trees):
            for at in self.spots(tree):
                yield (i, [[list(p), k] for p, k in at])

    def spots(self, tree):
        every = [(p, k) for p in paths(tree) for k in ('v',)]
        for r in range(0, 4):
            for c in itertools.combinations(every, r):
                yield c

    def run(self, case):
        i, at = case
        tree = self.trees[i]
        model = Model()
        nodes = self.build(tree, model)
        attrs = {}
        for p, node in nodes.items():
            if len(at) % 2 or [list(p), 'v'] in at:
                # attributes of untouched nodes do not exist yet
                attrs[p] = node.attrs
                model.nodes.add(p + ('__attrs__',))
        for j, (p, k) in enumerate(at):
            p = tuple(p)
            val = [self.values[j], nodes[p]][0]
            attrs[p][k] = val
            model.values[p + ('__attrs__', k)] = val
        for fb in self.placements(tree):
            model.fb = fb
            for p, node in nodes.items():
                if p in fb:
                    node.fallback_key = fb[p]
                elif 'fallback_key' in node.__dict__:
                    del node.fallback_key
            for p in sorted(attrs):
                for key in ('v', 'z'):
                    got = model.resolve(p + ('__attrs__',), key)
                    want = MISSING if got is None else model.values[got]
                    lookup('tree %s, fallback keys %s, attributes %s, '
                           '/%s.attrs[%s]' % (
                               [text(x) for x in sorted(nodes, key=repr)],
                               dict((text(k), v) for k, v in fb.items()),
                               at, text(p), key),
                           attrs[p], key, want)
                if dict(attrs[p].items()) != dict(
                        (q[-1], v) for q, v in model.values.items()
                        if q[:-1] == p + ('__attrs__',)):
                    fail('lookups changed attributes of %s', p)
            for p, node in nodes.items():
                if list(node) != [q[-1] for q in self.order(nodes, p)]:
                    fail('lookups changed children of %s', p)
        return 'lookups'

    def order(self, nodes, p):
        return [q for q in nodes if q and q[:-1] == p]


class Values(Trees):
    """Leaves of the tree replaced by plain values, one after another."""
    vals = [None, 0, 'text', {'a': 1}, [1], OrderedNode]

    def cases(self):
        for i, tree in enumerate(self.trees):
            leaves = [p for p in paths(tree)
                      if p and not any(q[:-1] == p for q in paths(tree) if q)]
            for r in range(1, min(3, len(leaves) + 1)):
                for c in itertools.combinations(leaves, r):
                    yield (i, [list(p) for p in c])

    def run(self, case):
        i, gone = case
        tree = self.trees[i]
        gone = [tuple(p) for p in gone]
        model = Model()
        nodes = {}
        for p in paths(tree):
            if p in gone:
                model.values[p] = val = self.vals[
                    (gone.index(p) + len(p) + i) % len(self.vals)]
                nodes[p[:-1]][p[-1]] = val
                continue
            model.nodes.add(p)
            nodes[p] = Plain(name='root') if not p else Plain()
            if p:
                nodes[p[:-1]][p[-1]] = nodes[p]
        for fb in self.placements(tree):
            fb = dict((p, v) for p, v in fb.items() if p in nodes)
            model.fb = fb
            for p, node in nodes.items():
                if p in fb:
                    node.fallback_key = fb[p]
                elif 'fallback_key' in node.__dict__:
                    del node.fallback_key
            for p in sorted(nodes, key=repr):
                for key in self.lookups:
                    got = model.resolve(p, key)
                    want = MISSING if got is None else (
                        nodes[got] if got in nodes else model.values[got])
                    lookup('tree %s with values %s, fallback keys %s, '
                           '/%s [%s]' % (
                               [text(x) for x in sorted(nodes, key=repr)],
                               dict((text(k), v)
                                    for k, v in model.values.items()),
                               dict((text(k), v) for k, v in fb.items()),
                               text(p), key), nodes[p], key, want)
        return 'lookups'


class History(Cases):
    """Lookups between changes of the tree: results follow the tree."""
    name = 'changes between lookups'
    chunk = 20
    OPS = ['lookup', 'del f', 'set f', 'del leaf', 'set leaf', 'set direct',
           'del direct', 'unset key', 'set key', 'set inner key', 'failing']

    def __init__(self, length):
        self.length = length

    def cases(self):
        for n in range(1, self.length + 1):
            for ops in itertools.product(range(len(self.OPS)), repeat=n):
                yield ops

    def run(self, case):
        root = Plain(name='root')
        root['x'] = Plain()
        root['x']['y'] = Plain()
        root.fallback_key = 'f'
        model = Model()
        real = {(): root, ('x',): root['x'], ('x', 'y'): root['x']['y']}
        model.nodes = set(real)
        model.fb = {(): 'f'}

        def drop(p):
            for q in list(model.nodes):
                if q[:len(p)] == p:
                    model.nodes.discard(q)
                    del real[q]

        def put(p):
            if p[:-1] not in real:
                return
            drop(p)
            node = real[p] = Plain()
            real[p[:-1]][p[-1]] = node
            model.nodes.add(p)

        def remove(p):
            if p in real:
                del real[p[:-1]][p[-1]]
                drop(p)

        for op in case:
            op = self.OPS[op]
            if op == 'del f':
                remove(('f',))
            elif op == 'set f':
                put(('f',))
                put(('f', 'y'))
            elif op == 'del leaf':
                remove(('f', 'y', 'a'))
            elif op == 'set leaf':
                put(('f', 'y', 'a'))
            elif op == 'set direct':
                put(('x', 'y', 'a'))
            elif op == 'del direct':
                remove(('x', 'y', 'a'))
            elif op == 'set inner key':
                root['x'].fallback_key = 'y'
                model.fb[('x',)] = 'y'
            elif op == 'unset key':
                root.fallback_key = None
                model.fb.pop((), None)
            elif op == 'set key':
                root.fallback_key = 'f'
                model.fb[()] = 'f'
            elif op == 'failing':
                out = outcome(lambda: root['x']['y']['nope'])
                if out[0] != 'raise' or type(out[1]) is not KeyError:
                    fail('missing key: %r', out)
            for p in list(real):
                for key in ('a', 'x', 'y'):
                    got = model.resolve(p, key)
                    lookup('/%s [%s] after %s' % (text(p), key, op),
                           real[p], key,
                           MISSING if got is None else real[got])


class Broken(Exception):
    pass


class Errors(Cases):
    """A lookup ending in an error leaves later lookups intact."""
    name = 'lookups ending in errors'
    chunk = 20

    def cases(self):
        for exc in ('KeyError', 'Broken', 'TypeError', 'AttributeError'):
            for n in (1, 2, 3):
                for deep in (0, 1):
                    yield (exc, n, deep)

    def run(self, case):
        name, n, deep = case
        exc = {'KeyError': KeyError, 'Broken': Broken, 'TypeError': TypeError,
               'AttributeError': AttributeError}[name]
        state = {'on': True}

        class Bad(Plain):
            def __getitem__(self, key):
                if state['on']:
                    raise exc(key)
                return super(Bad, self).__getitem__(key)

        root = Plain(name='root')
        root.fallback_key = 'f'
        root['f'] = Bad()
        if deep:
            root['f'] = Plain()
        state['on'] = False
        root['f']['y'] = Bad()
        root['f']['y']['a'] = found = Plain()
        root['x'] = Plain()
        root['x']['y'] = Plain()
        state['on'] = True
        for i in range(n):
            out = outcome(lambda: root['x']['y']['a'])
            if out[0] == 'ok' or not isinstance(out[1], exc):
                fail('lookup through a failing fallback: %r', out)
        state['on'] = False
        lookup('afterwards', root['x']['y'], 'a', found)
        lookup('afterwards', root['x']['y'], 'z', MISSING)


class Long(Cases):
    """Deep chains of fallbacks terminate with the right result."""
    name = 'long chains'
    chunk = 4

    def __init__(self, upto):
        self.upto = upto

    def cases(self):
        for n in range(1, self.upto + 1):
            for style in ('ancestors', 'nested', 'self'):
                for hit in (0, 1):
                    yield (n, style, hit)

    def run(self, case):
        n, style, hit = case
        root = Plain(name='root')
        model = Model()
        real = {(): root}
        model.nodes.add(())

        def put(p):
            node = real[p] = Plain()
            real[p[:-1]][p[-1]] = node
            model.nodes.add(p)

        def declare(p, key):
            real[p].fallback_key = key
            model.fb[p] = key

        if style == 'ancestors':
            # every ancestor has an empty fallback, the root has the value
            at = ()
            for i in range(n):
                put(at + ('f',))
                declare(at, 'f')
                put(at + ('a',))
                at = at + ('a',)
            if hit:
                f = ('f',)
                for i in range(n - 1):
                    put(f + ('a',))
                    f = f + ('a',)
                put(f + ('v',))
            start = at
        elif style == 'nested':
            # each fallback child declares one itself
            at = ()
            for i in range(n):
                put(at + ('f',))
                declare(at, 'f')
                at = at + ('f',)
            if hit:
                put(at + ('v',))
            start = ()
            for i in range(n):
                put(start + ('a',))
                start = start + ('a',)
        else:
            # nodes named like the fallback child they are
            at = ()
            for i in range(n):
                declare(at, 'a')
                put(at + ('a',))
                at = at + ('a',)
            if hit:
                put(at + ('v',))
            start = at
        for i in range(len(start) + 1):
            for key in ('v', 'a', 'f', 'z'):
                got = model.resolve(start[:i], key)
                lookup('%s %s /%s [%s]' % (style, n, text(start[:i]), key),
                       real[start[:i]], key,
                       MISSING if got is None else real[got])


def tasks(tier):
    quick = tier == 'quick'
    two = closed(['a', 'f'], 2)
    three = closed(['a', 'f'], 3)
    small = [t for t in three if len(paths(t)) <= (6 if quick else 8)]
    wide = closed(['a', 'b', 'f'], 2)
    out = [
        Trees('depth 2, every key', two, ['a', 'f', 'z'], [Plain],
              leaves=True, maxdecl=2 if quick else 9),
        Trees('depth 2, outermost', two, ['a', 'f', 'z'], [Outermost]),
        Trees('depth 2, full', two, ['a', 'f'], [Full]),
        Trees('depth 2, subclass', two, ['a', 'f'], [Sub, Plain]),
        Trees('wide', wide, ['a', 'f'], [Plain],
              maxdecl=2 if quick else 9),
        Trees('depth 3', three, ['f'], [Plain], maxdecl=2 if quick else 9),
        Trees('mixed', [t for t in three if len(paths(t)) <= 7], ['a', 'f'],
              [Boring, Plain], maxdecl=2),
        Trees('false', small, ['a', 'f'], [False_], maxdecl=2),
        Trees('equal', small, ['a', 'f'], [Equal], maxdecl=2),
        Trees('unhashable', small, ['a', 'f'], [Unhashable], maxdecl=2),
        AttrTrees('attributes', two if not quick else
                  [t for t in two if len(paths(t)) <= 6],
                  ['a', 'f'], [AttrNode], maxdecl=2 if quick else 9),
        Values('values', two, ['a', 'f'], [Plain]),
        History(3 if quick else 5),
        Errors(),
        Long(12 if quick else 40),
    ]
    for n, names in enumerate(NAMES):
        out.append(Trees('names %d' % n, small, ['a', 'f'], [Plain],
                         maxdecl=2 if quick else 3, names=names))
    if not quick:
        for n in range(1, 8):
            out.append(Trees('size %d' % n, sized(KEYS, n, 5), ['a', 'f'],
                             [Plain], maxdecl=4))
        out.append(Trees('depth 3, both', three, ['a', 'f'], [Plain],
                         maxdecl=4))
    return out
