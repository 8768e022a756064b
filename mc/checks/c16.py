"""C16: unicode aware nodes."""
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FullMapping
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import Storage
from node.behaviors import UnicodeAware
from odict import odict
from plumber import plumbing
import itertools

TECHNIQUE = ('explicit-state BFS over histories of mapping operations with '
             'encoded and decoded keys on the real classes against a '
             'dictionary keyed by decoded keys')
LEVEL_NOTE = (
    'Every history up to the depth over 12 keys (text, UTF-8 bytes, '
    'undecodable bytes, empty, other types) and 12 values on 8 stacks and a '
    'plain dict; states merged by heap form. Trusts the reference decoder.')
ASSUMPTIONS = ['unicode awareness lies above the other behaviors, or only '
               'below adoption when values are nodes',
               'bytes inside other values are values of their own']


def dec(x):
    """The documented translation."""
    if isinstance(x, bytes):
        try:
            return x.decode('utf-8')
        except UnicodeDecodeError:
            return x
    return x


class BytesSub(bytes):
    pass


class TextSub(str):
    pass


@plumbing(UnicodeAware, Nodify, OdictStorage)
class Plain(object):
    pass


@plumbing(UnicodeAware, FullMapping, DictStorage)
class Mapping(object):
    pass


@plumbing(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Outer(object):
    pass


@plumbing(UnicodeAware, Nodespaces, Adopt, Attributes, Order, DefaultInit,
          Nodify, OdictStorage)
class Full(object):
    pass


@plumbing(UnicodeAware, Cache, Invalidate, Adopt, Lifecycle, Reference,
          DefaultInit, Nodify, OdictStorage)
class CachedFull(object):
    pass


@plumbing(UnicodeAware, NodeChildValidate, Adopt, DefaultInit, Nodify,
          DictStorage)
class Nodes(object):
    pass


@plumbing(UnicodeAware)
class UnicodeAttributes(NodeAttributes):
    pass


@plumbing(UnicodeAware)
class UnicodeDict(dict):
    pass


class Sub(Plain):
    pass


CLASSES = odict([
    ('plain', (Plain, True, None)), ('mapping', (Mapping, False, None)),
    ('inner', (zoo.UnicodeNode, True, None)), ('outer', (Outer, True, None)),
    ('full', (Full, True, zoo.BaseNode)),
    ('cached', (CachedFull, True, CachedFull)),
    ('nodes', (Nodes, False, zoo.BaseNode)),
    ('attrs', (lambda: UnicodeAttributes(zoo.BaseNode()), True, None)),
    ('dict', (UnicodeDict, True, None)), ('sub', (Sub, True, None)),
])

TEXT = ['a', b'a', 'ä', 'ä'.encode('utf-8')]
ODD = [b'\xe4', b'', '', 1]
MORE = [(b'a',), BytesSub(b'a'), '€'.encode('utf-8'), None, b'\xff\xfe',
        'b', b'\xed\xa0\x80']
# characters which translations are prone to treat specially
CHARS = [u'\ufeffa', u'a\x00b', u'\n', u'\u2028', u'\U0001f600', u'a\u0308',
         u'\xa0', u'\ufffd', u'\x7f', u' a ', u'\xdf', u'\u0130']
VALUES = [b'v', b'\xc3\xa4', 'v', b'\xe4', 1]
MORE_VALUES = [None, [b'x'], (b'x',), {b'k': b'v'}, bytearray(b'x'), b'',
               BytesSub(b'sub'), 1.5]
MISS = object()


class Unicode(Machine):

    def __init__(self, cls, keys, values, depth, tag):
        self.cls = cls
        self.factory, self.ordered, self.child = CLASSES[cls]
        self.keys = keys
        self.values = values if self.child is None else ['node', 'again']
        self.depth = depth
        self.name = 'unicode-%s-%s' % (cls, tag)

    def fresh(self):
        return State(m=self.factory(), data=odict(), pool=[])

    def ops(self, s):
        plain = self.cls == 'dict'
        for k in self.keys:
            for n in range(len(self.values)):
                yield ('set', k, n)
            yield ('read', k)
            yield ('del', k)
            if plain:
                # plain dictionaries only get the four primitives
                continue
            yield ('pop', k)
            yield ('popd', k)
            yield ('setdefault', k, 0)
            yield ('update', k, 0)
            if hasattr(Nodify, 'detach') and self.cls not in ('mapping',):
                yield ('detach', k)
            if self.cls == 'cached':
                yield ('invalidate', k)
        if not plain:
            yield ('updatekw', 'a', 0)
            yield ('popitem',)
            yield ('clear',)

    def value(self, s, n):
        if self.child is not None:
            if self.values[n] == 'again':
                free = [x for x in s.pool
                        if not any(x is y for y in s.data.values())]
                if free:
                    return free[-1]
            v = self.child()
            s.pool.append(v)
            return v
        return self.values[n]

    def apply(self, s, op):
        kind = op[0]
        m, data = s.m, s.data
        k = op[1] if len(op) > 1 else None
        d = dec(k)
        if kind in ('set', 'update', 'updatekw'):
            v = self.value(s, op[2])
            if kind == 'set':
                out = outcome(lambda: m.__setitem__(k, v))
            elif kind == 'update':
                out = outcome(lambda: m.update([(k, v)]))
            else:
                out = outcome(lambda: m.update(a=v))
            expect('%s %r' % (kind, k), out, ('any',))
            data[d] = dec(v)
            return
        if kind == 'setdefault':
            v = self.value(s, op[2])
            out = outcome(lambda: m.setdefault(k, v))
            if d in data:
                self.expect_val('setdefault', out, data[d])
                return 'present'
            expect('setdefault %r' % (k,), out, ('any',))
            # whether the given or the stored form is returned is left open
            if out[1] != v and out[1] != dec(v):
                fail('setdefault returned %r', out[1])
            data[d] = dec(v)
            return
        if kind == 'read':
            out = outcome(lambda: m[k])
            if d not in data:
                expect('m[%r]' % (k,), out, ('raise', KeyError))
                return 'missing'
            self.expect_val('m[%r]' % (k,), out, data[d])
            return
        if kind in ('del', 'pop', 'popd', 'detach', 'invalidate'):
            fn = {'del': lambda: m.__delitem__(k),
                  'pop': lambda: m.pop(k),
                  'popd': lambda: m.pop(k, MISS),
                  'detach': lambda: m.detach(k),
                  'invalidate': lambda: m.invalidate(k)}[kind]
            if kind == 'invalidate' and k is None:
                return 'skip'
            out = outcome(fn)
            if d not in data:
                expect('%s(%r)' % (kind, k), out, ('is', MISS)
                       if kind == 'popd' else ('raise', KeyError))
                return 'missing'
            if kind in ('del', 'invalidate'):
                expect('%s(%r)' % (kind, k), out, ('any',))
            else:
                self.expect_val('%s(%r)' % (kind, k), out, data[d])
            del data[d]
            return
        if kind == 'clear':
            expect(kind, outcome(lambda: m.clear()), ('any',))
            data.clear()
            return
        if kind == 'popitem':
            out = outcome(lambda: m.popitem())
            if not data:
                expect(kind, out, ('raise', KeyError))
                return 'empty'
            expect(kind, out, ('any',))
            key, val = out[1]
            if key not in data or type(key) is not type(
                    [x for x in data if x == key][0]):
                fail('popitem gave %r of %r', out[1], data)
            self.expect_val('popitem', ('ok', val), data[key])
            del data[key]
            return

    def expect_val(self, what, out, want):
        expect(what, out, ('any',))
        got = out[1]
        if isinstance(want, str):
            ok = got == want and isinstance(got, str)
        elif isinstance(want, (int, bytes, type(None), float)):
            ok = got == want and type(got) is type(want)
        else:
            ok = got is want
        if not ok:
            fail('%s gave %r, expected %r', what, got, want)

    def check(self, s):
        m, data = s.m, s.data
        keys = list(m)
        want = list(data)
        if not self.ordered:
            keys.sort(key=repr)
            want.sort(key=repr)
        if [repr(k) for k in keys] != [repr(k) for k in want]:
            fail('enumerates %r, expected %r', keys, want)
        if len(m) != len(data):
            fail('length %r, expected %r', len(m), data)
        for k in TEXT + ODD + MORE + self.keys:
            d = dec(k)
            out = outcome(lambda: m[k])
            if d in data:
                self.expect_val('m[%r]' % (k,), out, data[d])
            else:
                expect('m[%r]' % (k,), out, ('raise', KeyError))
            if self.cls == 'dict':
                continue
            if (k in m) != (d in data) or m.has_key(k) != (d in data):  # noqa
                fail('%r in node is %r', k, k in m)
            got = m.get(k, MISS)
            if d in data:
                self.expect_val('get(%r)' % (k,), ('ok', got), data[d])
            elif got is not MISS:
                fail('get(%r) gave %r', k, got)
        if self.cls != 'dict':
            got = [(repr(k), v) for k, v in m.items()]
            if sorted(k for k, _ in got) != sorted(map(repr, data)):
                fail('items %r, expected %r', m.items(), data)
            for k, v in m.items():
                self.expect_val('items[%r]' % (k,), ('ok', v), data[k])


class Missing(dict):
    """A storage creating what it is asked for."""

    def __missing__(self, key):
        self[key] = value = [key]
        return value


class Filled(dict):
    """A storage which also holds what others put there."""


@plumbing(UnicodeAware, DefaultInit, Nodify, Storage)
class Given(object):
    storage = None


@plumbing(UnicodeAware, Adopt, DefaultInit, Nodify, Storage)
class GivenAdopting(object):
    storage = None


@plumbing(UnicodeAware, Cache, Invalidate, DefaultInit, Nodify, Storage)
class GivenCached(object):
    storage = None


@plumbing(UnicodeAware, ChildFactory, DefaultInit, Nodify, Storage)
class GivenFactory(object):
    storage = None


GIVEN = odict([('plain', Given), ('adopting', GivenAdopting),
               ('cached', GivenCached), ('factory', GivenFactory)])


class Below(Cases):
    """Whatever is below is asked for text."""
    name = 'below'
    ways = ('item', 'get', 'in', 'set', 'del', 'pop', 'popd', 'setdefault',
            'update', 'has_key')

    def cases(self):
        for cls in GIVEN:
            for kind in ('missing', 'filled'):
                for key in TEXT + ODD[:3] + ['€'.encode('utf-8'), 'b', b'b']:
                    for n in (1, 2):
                        for ways in itertools.product(self.ways, repeat=n):
                            yield (cls, kind, key, ways)

    def run(self, case):
        cls, kind, key, ways = case
        text = dec(key)
        made = []
        # the same below, used with text only
        sides = []
        for k in (key, text):
            node = GIVEN[cls]()
            node.storage = Missing() if kind == 'missing' else Filled(
                (x, 'old %r' % (x,)) for x in TEXT)
            if cls == 'factory':
                def factory(made=made):
                    made.append(zoo.BaseNode())
                    return str(len(made))
                node.factories = dict((x, factory) for x in TEXT[:2])
            del made[:]
            got = [self.way(node, way, k) for way in ways]
            sides.append((got, list(made and [len(made)]),
                          sorted(node.storage.items(), key=repr)))
        if sides[0] != sides[1]:
            fail('%r by %r: %r, by text %r', ways, key, sides[0], sides[1])
        return kind

    def way(self, node, way, key):
        out = outcome({
            'item': lambda: node[key], 'get': lambda: node.get(key, 'd'),
            'in': lambda: key in node,
            'set': lambda: node.__setitem__(key, 'new'),
            'del': lambda: node.__delitem__(key),
            'pop': lambda: node.pop(key), 'popd': lambda: node.pop(key, 'd'),
            'setdefault': lambda: node.setdefault(key, 'new'),
            'update': lambda: node.update({key: 'new'}),
            'has_key': lambda: node.has_key(key)}[way])  # noqa: W601
        if out[0] == 'raise':
            return (way, type(out[1]))
        return (way, out[1])


def tasks(tier):
    q = tier == 'quick'
    out = [Below()]
    for cls in CLASSES:
        main = cls in ('plain', 'inner')
        out.append(Unicode(cls, TEXT, VALUES[:3 if q else 5],
                           3 if main or not q else 2, 'text'))
        out.append(Unicode(cls, ['a', b'a'] + ODD, VALUES[:2] + VALUES[3:4],
                           2 if q else 3, 'odd'))
        out.append(Unicode(cls, ['a'] + MORE, VALUES + MORE_VALUES,
                           1 if q else 2, 'more'))
        subs = [BytesSub(b'a'), TextSub('a'), BytesSub(b'\xc3\xa4')]
        out.append(Unicode(cls, ['a'] + subs, ['v', BytesSub(b'v')],
                           3 if main or not q else 2, 'subclasses'))
        both = CHARS + [c.encode('utf-8') for c in CHARS]
        out.append(Unicode(cls, both, both, 1, 'chars'))
        for n in range(0, len(CHARS), 3):
            out.append(Unicode(cls, both[n:n + 3] + both[n + 12:n + 15],
                               both[n + 12:n + 15], 1 if q else 2,
                               'chars%d' % n))
        if not q:
            out.append(Unicode(cls, ['a', b'a'], VALUES[:3], 5, 'deep'))
    return out
