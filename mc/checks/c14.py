"""C14: child factories and invalidation."""
import functools
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Reference
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from node.utils import UNSET
from odict import odict
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over histories of accesses, writes, deletes '
             'and invalidations on real classes with counting child factories, '
             'against a model of the stored children')
LEVEL_NOTE = (
    'Every history up to the depth over two instances, falsy keys included, '
    'factories which fail or yield falsy children, changed factories, 12 '
    'stacks; storage backed nodes with both invalidation behaviors up to the '
    'fixpoint. Trusts the model.')
ASSUMPTIONS = ['factory nodes are invalidated by VolatileStorageInvalidate '
               '(Invalidate is documented not to be meant for them)',
               'the key None is not used (it stands for all keys)',
               'references are invalidated with Invalidate']


class FactoryFailure(Exception):
    pass


class KeyFailure(FactoryFailure, KeyError):
    """Not to be taken for a missing key."""


class AttributeFailure(FactoryFailure, AttributeError):
    pass


class Plain(object):
    """A child which is not a node."""


class FalsyNode(zoo.BaseNode):

    def __bool__(self):
        return False


class EqualNode(zoo.BaseNode):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, EqualNode)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


ELSEWHERE = zoo.BaseNode(name='elsewhere')


def located():
    """A child which comes with a name and a parent."""
    return zoo.OrderedNode(name='named', parent=ELSEWHERE)


TYPES = {'node': zoo.BaseNode, 'falsy': FalsyNode, 'plain': Plain,
         'none': type(None), 'equal': EqualNode, 'located': zoo.OrderedNode,
         'class': type, 'text': str}


class Factories(object):
    """Recording factories."""

    def __init__(self, keys, failure=FactoryFailure):
        self.failure = failure
        self.made = []
        self.tokens = []
        self.last = None
        self.failing = set()
        self.kinds = {}
        self.factories = odict()
        for n, k in enumerate(keys):
            self.add(k, ('node', 'falsy', 'node', 'plain')[n % 4])

    def add(self, key, kind='node'):
        self.kinds[key] = kind
        if kind == 'falsy':
            f = functools.partial(self.make, key)
        elif kind == 'plain':
            class Factory(object):
                def __call__(this):
                    return self.make(key)
            f = Factory()
        else:
            def f():
                return self.make(key)
        self.factories[key] = f

    def renewed(self, key):
        """Another factory for a known key."""
        f = functools.partial(self.make, key)
        f.token = len(self.tokens)
        self.tokens.append(f)
        f.keywords['token'] = f.token
        return f

    def make(self, key, token=None):
        self.made.append(key)
        self.last = token
        if key in self.failing:
            raise self.failure(key)
        kind = self.kinds[key]
        if kind in ('class', 'text', 'located'):
            return {'class': lambda: zoo.BaseNode, 'text': lambda: '',
                    'located': located}[kind]()
        return TYPES[kind]()


VSI = VolatileStorageInvalidate
STACKS = odict([
    ('plain', ((Nodify, VSI, ChildFactory, OdictStorage), False)),
    ('adopt', ((Adopt, VSI, DefaultInit, Nodify, ChildFactory,
                OdictStorage), True)),
    ('dict', ((Adopt, VSI, DefaultInit, Nodify, ChildFactory, DictStorage),
              True)),
    ('node', ((Nodespaces, Adopt, Attributes, AsAttrAccess, VSI, DefaultInit,
               Nodify, ChildFactory, OdictStorage), True)),
    ('lifecycle', ((Lifecycle, Adopt, VSI, DefaultInit, Nodify, ChildFactory,
                    OdictStorage), True)),
    ('cached', ((Adopt, Cache, VSI, DefaultInit, Nodify, ChildFactory,
                 OdictStorage), True)),
    ('cachedinner', ((Adopt, DefaultInit, Nodify, ChildFactory, Cache, VSI,
                      OdictStorage), True)),
    ('unicode', ((Adopt, UnicodeAware, VSI, DefaultInit, Nodify, ChildFactory,
                  DictStorage), True)),
    ('getattr', ((Adopt, GetattrChildren, VSI, DefaultInit, Nodify,
                  ChildFactory, OdictStorage), True)),
    ('outer', ((ChildFactory, Adopt, VSI, DefaultInit, Nodify, OdictStorage),
               True)),
])


class Lazy(Machine):
    """Factory nodes.

    Model: cur[i]: key -> child stored in instance i.
    """

    def __init__(self, stack, keys, depth, tag='', kinds=(),
                 failure=FactoryFailure):
        self.failure = failure
        self.stack = stack
        self.behaviors, self.adopts = STACKS[stack]
        self.keys = keys
        self.depth = depth
        self.kinds = kinds
        self.name = 'lazy-%s%s' % (stack, tag)
        self.base = plumbing(*self.behaviors)(type('Lazy', (object,), {}))

    def fresh(self):
        f = Factories(self.keys, self.failure)
        f.kinds.update(self.kinds)
        cls = self.base
        # per class declaration, as documented
        cls.factories = f.factories
        s = State(f=f, ms=[cls(), cls()], cur=[{}, {}], own=[None, None])
        return s

    def fac(self, s, i):
        return s.own[i] if s.own[i] is not None else s.f

    def ops(self, s):
        for i in (0, 1):
            f = self.fac(s, i)
            for n, k in enumerate(f.factories):
                if i == 1 and n:
                    break
                yield ('get', i, k)
                yield ('inv', i, k)
                if i == 0:
                    yield ('in', i, k)
                    yield ('set', i, k)
                    yield ('del', i, k)
                    yield ('pop', i, k)
                    yield ('failing', i, k)
            yield ('inv', i, 'nokey')
            yield ('invall', i)
            if i == 0:
                yield ('get', i, 'nokey')
                yield ('values', i)
                yield ('own', i)
                yield ('fewer', i)
                yield ('renew', i, 'own')
                yield ('renew', i, 'inplace')
                yield ('set', i, 'extra')
                yield ('get', i, 'extra')
                yield ('del', i, 'extra')
                yield ('inv', i, 'extra')

    def access(self, s, i, k, fn, what):
        """One access to k: creates the child iff it is not stored."""
        f, m, cur = self.fac(s, i), s.ms[i], s.cur[i]
        n = len(s.f.made)
        out = outcome(fn)
        made = s.f.made[n:]
        if k in cur:
            expect(what, out, ('is', cur[k]))
            if made:
                fail('%s created %r again', what, made)
            return 'stored'
        if k not in f.factories:
            expect(what, out, ('raise', KeyError))
            if made:
                fail('%s created %r', what, made)
            return 'unknown'
        if made != [k]:
            fail('%s called the factories of %r', what, made)
        if s.f.last != getattr(f.factories[k], 'token', None):
            fail('%s called a factory which was replaced', what)
        if k in s.f.failing:
            expect(what, out, ('raise', FactoryFailure))
            return 'failed'
        expect(what, out, ('any',))
        child = out[1]
        if isinstance(child, (Plain, zoo.BaseNode, zoo.OrderedNode)) and any(
                child is c for c in cur.values()):
            fail('%s gave the child of another key', what)
        if type(child) is not TYPES[s.f.kinds[k]] \
                and child is not zoo.BaseNode:
            fail('%s gave %r', what, child)
        cur[k] = child
        self.adopted(m, k, child, what)
        return 'created'

    def adopted(self, m, k, child, what):
        if self.adopts and isinstance(
                child, (zoo.BaseNode, zoo.OrderedNode)):
            if child.name != k or child.parent is not m:
                fail('%s: child has name %r and parent %r', what, child.name,
                     child.parent)

    def apply(self, s, op):
        kind, i = op[:2]
        k = op[2] if len(op) > 2 else None
        m, cur, f = s.ms[i], s.cur[i], self.fac(s, i)
        if kind == 'get':
            return self.access(s, i, k, lambda: m[k], 'm[%r]' % (k,))
        if kind == 'in':
            n = len(s.f.made)
            out = outcome(lambda: k in m)
            made = s.f.made[n:]
            if k in s.f.failing and k not in cur:
                # whether membership has to create the child is left open
                return 'failing'
            expect('%r in m' % (k,), out, ('ok', True))
            if made and (made != [k] or k in cur):
                fail('%r in m created %r', k, made)
            if made:
                cur[k] = m[k]
            return
        if kind == 'failing':
            (s.f.failing.discard if k in s.f.failing
             else s.f.failing.add)(k)
            return
        if kind == 'own':
            # changed factories of one instance
            f2 = odict(f.factories.items())
            key = 'own%d' % len(f2)
            if len(f2) > len(self.keys):
                return 'skip'
            s.f.kinds[key] = 'node'
            f2[key] = functools.partial(s.f.make, key)
            s.own[i] = State(factories=f2)
            m.factories = f2
            return
        if kind == 'renew':
            # another factory for the first key
            if len(s.f.tokens) > 1:
                return 'skip'
            key = list(f.factories)[0]
            if k == 'own':
                s.own[i] = State(factories=odict(f.factories.items()))
                m.factories = s.own[i].factories
                f = s.own[i]
            f.factories[key] = s.f.renewed(key)
            return
        if kind == 'fewer':
            # fewer factories than children possibly stored
            keys = list(f.factories)
            if len(keys) < 2:
                return 'skip'
            f2 = odict((x, f.factories[x]) for x in keys[1:])
            s.own[i] = State(factories=f2)
            m.factories = f2
            return
        if kind == 'set':
            v = zoo.BaseNode()
            expect('set', outcome(lambda: m.__setitem__(k, v)), ('any',))
            cur[k] = v
            self.adopted(m, k, v, 'set')
            return
        if kind in ('del', 'pop'):
            if k not in cur:
                # deleting what has not been created is left open
                return 'skip'
            expect(kind, outcome((lambda: m.__delitem__(k))
                                 if kind == 'del' else (lambda: m.pop(k))),
                   ('any',) if kind == 'del' else ('is', cur[k]))
            del cur[k]
            return
        if kind == 'values':
            if any(x not in cur and x in f.factories
                   for x in s.f.failing):
                expect('values', outcome(lambda: list(m.values())),
                       ('raise', FactoryFailure))
                # those before the failing one have been created
                for x in f.factories:
                    if x in s.f.failing and x not in cur:
                        break
                    if x not in cur:
                        cur[x] = m[x]
                return 'failed'
            n = len(s.f.made)
            want = [x for x in f.factories if x not in cur]
            out = outcome(lambda: list(m.items()))
            expect('items', out, ('any',))
            if sorted(map(repr, s.f.made[n:])) != sorted(map(repr, want)):
                fail('items created %r, expected %r', s.f.made[n:], want)
            if [x for x, _ in out[1]] != list(f.factories):
                fail('items %r', out[1])
            for x, v in out[1]:
                if x in cur and cur[x] is not v:
                    fail('items yield %r for %r, expected %r', v, x, cur[x])
                cur[x] = v
            return
        if kind == 'inv':
            n = len(s.f.made)
            out = outcome(lambda: m.invalidate(k))
            if k not in f.factories:
                expect('invalidate(%r)' % (k,), out, ('raise', KeyError))
                return 'unknown'
            expect('invalidate(%r)' % (k,), out, ('any',))
            if s.f.made[n:]:
                fail('invalidate created %r', s.f.made[n:])
            return 'dropped' if cur.pop(k, UNSET) is not UNSET else 'absent'
        if kind == 'invall':
            n = len(s.f.made)
            expect('invalidate()', outcome(lambda: m.invalidate()), ('any',))
            if s.f.made[n:]:
                fail('invalidate created %r', s.f.made[n:])
            cur.clear()
            return

    def check(self, s):
        for i in (0, 1):
            m, cur, f = s.ms[i], s.cur[i], self.fac(s, i)
            keys = list(f.factories)
            n = len(s.f.made)
            for got in (list(m), list(m.keys()), list(m.iterkeys())):
                if got != keys:
                    fail('instance %d enumerates %r, factories %r', i, got,
                         keys)
            if len(m) != len(keys):
                fail('length %d, %d factories', len(m), len(keys))
            if s.f.made[n:]:
                fail('enumerating created %r', s.f.made[n:])
            for k in list(cur):
                if 'cached' not in self.stack:
                    if k not in m.storage or m.storage[k] is not cur[k]:
                        fail('child %r is not stored', k)
            if 'cached' not in self.stack:
                extra = [k for k in m.storage if k not in cur]
                if extra:
                    fail('instance %d stores %r, which were dropped or never '
                         'accessed', i, extra)
        for i in (0, 1):
            for k in list(self.fac(s, i).factories) + ['nokey', 'extra']:
                self.access(s, i, k, lambda: s.ms[i][k],
                            'instance %d m[%r]' % (i, k))
                self.access(s, i, k, lambda: s.ms[i][k],
                            'instance %d again m[%r]' % (i, k))


# ------------------------------------------------------------- storage backed
STORED = odict([
    ('volatile-odict', (Adopt, VSI, DefaultInit, Nodify, OdictStorage)),
    ('volatile-dict', (Adopt, VSI, DefaultInit, Nodify, DictStorage)),
    ('delete-odict', (Adopt, Invalidate, DefaultInit, Nodify, OdictStorage)),
    ('delete-dict', (Adopt, Invalidate, DefaultInit, Nodify, DictStorage)),
    ('cached-volatile', (Adopt, Cache, VSI, DefaultInit, Nodify,
                         OdictStorage)),
    ('cached-delete', (Adopt, Cache, Invalidate, DefaultInit, Nodify,
                       OdictStorage)),
    ('full-delete', (NodeChildValidate, Nodespaces, Adopt, Attributes, Cache,
                     Invalidate, Lifecycle, Reference, DefaultInit, Nodify,
                     OdictStorage)),
    ('full-volatile', (NodeChildValidate, Nodespaces, Adopt, Attributes,
                       Lifecycle, Cache, VSI, DefaultInit, Nodify,
                       OdictStorage)),
])


class Stored(Machine):

    def __init__(self, name, keys, depth):
        self.name = 'stored-%s' % name
        self.keys = keys
        self.depth = depth
        self.cls = plumbing(*STORED[name])(type('Stored', (object,), {}))
        self.ordered = 'dict' != name[-4:] or 'odict' in name
        self.space = Nodespaces in STORED[name]
        self.nodes_only = NodeChildValidate in STORED[name]

    def fresh(self):
        root = self.cls(name='root')
        root['sub'] = self.cls()
        s = State(ms=[root, root['sub']], ch=[odict(), odict()])
        s.ch[0]['sub'] = root['sub']
        if self.space:
            root['__x__'] = self.cls()
            root.attrs['x'] = 1
            s.space = root['__x__']
        return s

    def ops(self, s):
        for i in (0, 1):
            for k in self.keys:
                yield ('set', i, k)
                if not self.nodes_only:
                    yield ('setnone', i, k)
                yield ('inv', i, k)
                if i == 0:
                    yield ('del', i, k)
                    yield ('read', i, k)
            yield ('invall', i)
        yield ('inv', 0, 'nokey')
        yield ('inv', 0, 'sub')

    def apply(self, s, op):
        kind, i = op[:2]
        m, ch = s.ms[i], s.ch[i]
        k = op[2] if len(op) > 2 else None
        if kind in ('set', 'setnone'):
            v = self.cls() if kind == 'set' else None
            m[k] = v
            ch[k] = v
            return
        if kind in ('del', 'inv'):
            out = outcome((lambda: m.__delitem__(k)) if kind == 'del'
                          else (lambda: m.invalidate(k)))
            if k not in ch:
                expect('%s(%r)' % (kind, k), out, ('raise', KeyError))
                return 'unknown'
            expect('%s(%r)' % (kind, k), out, ('any',))
            del ch[k]
            return
        if kind == 'read':
            out = outcome(lambda: m[k])
            if k in ch:
                expect('read', out, ('is', ch[k]))
            else:
                expect('read', out, ('raise', KeyError))
            return
        out = outcome(lambda: m.invalidate())
        expect('invalidate()', out, ('any',))
        ch.clear()

    def check(self, s):
        for i in (0, 1):
            m, ch = s.ms[i], s.ch[i]
            got = list(m)
            if (got if self.ordered else sorted(map(repr, got))) != (
                    list(ch) if self.ordered else sorted(map(repr, ch))):
                fail('node %d holds %r, expected %r', i, got, list(ch))
            for k in self.keys + ['sub']:
                out = outcome(lambda: m[k])
                if k in ch:
                    expect('m[%r]' % (k,), out, ('is', ch[k]))
                    if ch[k] is not None and (
                            ch[k].parent is not m or ch[k].name != k):
                        fail('child %r has wrong location', k)
                else:
                    expect('m[%r]' % (k,), out, ('raise', KeyError))
        if self.space:
            if s.ms[0]['__x__'] is not s.space or s.ms[0].attrs['x'] != 1:
                fail('invalidation changed nodespaces or attributes')


class Many(Cases):
    """Nodes of many factories."""
    name = 'many factories'

    def __init__(self, sizes):
        self.sizes = sizes

    def cases(self):
        for name in STACKS:
            for size in self.sizes:
                for stride in (1, 2, 7, size - 1):
                    for change in ('inv', 'invall', 'del'):
                        yield (name, size, stride, change)

    def run(self, case):
        name, size, stride, change = case
        behaviors, adopts = STACKS[name]
        cls = plumbing(*behaviors)(type('Many', (object,), {}))
        keys = ['k%d' % i for i in range(size)]
        fac = Factories([])
        for key in keys:
            fac.add(key)
        m = cls()
        m.factories = fac.factories
        first = m.items()
        if [k for k, v in first] != keys or fac.made != keys:
            fail('keys %r, created %r', [k for k, v in first], fac.made)
        for what in ('forward', 'backward', 'values'):
            got = m.values() if what == 'values' else [
                m[k] for k in (keys if what == 'forward' else keys[::-1])]
            want = [v for k, v in first]
            if what == 'backward':
                want = want[::-1]
            if any(x is not y for x, y in zip(got, want)):
                fail('%s: other children than before', what)
        if fac.made != keys:
            fail('children created again: %r', fac.made[size:])
        dropped = set(keys if change == 'invall' else keys[::stride])
        if change == 'invall':
            m.invalidate()
        else:
            for key in keys[::stride]:
                if change == 'inv':
                    m.invalidate(key)
                else:
                    del m[key]
        again = m.items()
        if fac.made != keys + [k for k in keys if k in dropped]:
            fail('created again: %r', fac.made[size:])
        for (k, old), (key, new) in zip(first, again):
            if k != key or (old is new) == (k in dropped):
                fail('child %r, %r: %s', k, key,
                     'kept' if old is new else 'another one')
            if adopts and (new.name != k or new.parent is not m):
                fail('child %r has location %r', k, new)


def tasks(tier):
    q = tier == 'quick'
    out = []
    for name in STACKS:
        main = name in ('adopt', 'cached')
        depth = (3 if main else 2) if q else (5 if main else 4)
        out.append(Lazy(name, ['a', '', 'b'], depth))
        if main or not q:
            out.append(Lazy(name, [0, 'a'], depth, '-zero'))
    for name in ('plain', 'adopt', 'dict', 'cachedinner'):
        out.append(Lazy(name, ['a', 'b', 'c', 'd'], 2 if q else 3, '-kinds',
                        {'a': 'none', 'b': 'plain'}))
        out.append(Lazy(name, ['a', 'b', 'c'], 2 if q else 3, '-kinds2',
                        {'a': 'located', 'b': 'equal', 'c': 'equal'}))
        out.append(Lazy(name, [(), 'b', 1.5], 2 if q else 3, '-kinds3',
                        {(): 'class', 'b': 'text', 1.5: 'located'}))
    for name in ('adopt', 'cached', 'getattr', 'outer', 'unicode'):
        for failure in (KeyFailure, AttributeFailure):
            out.append(Lazy(name, ['a', 'b'], 2 if q else 3,
                            '-%s' % failure.__name__, failure=failure))
    out.append(Many((9, 65, 300) if q else (9, 17, 65, 129, 257, 1100)))
    for name in STORED:
        out.append(Stored(name, ['', 'b'], 3 if q else 5))
        out.append(Stored(name + '', [0, 'b'], 2 if q else 4))
        out[-1].name += '-zero'
    return out
