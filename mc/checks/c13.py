"""C13: caching nodes never serve stale children."""
import itertools
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import Fallback
from node.behaviors import FullMapping
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from odict import odict
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over histories of reads, writes, deletes, '
             'invalidations and backend changes on the real caching classes, '
             'against a model of the backend which counts backend reads')
LEVEL_NOTE = (
    'Every history up to the depth over two keys: a bare cache over backends '
    'which load a new object per read, refuse writes before or after doing '
    'them, and change behind the cache; and every stack of up to three stock '
    'behaviors above and below the cache. Trusts the model.')
ASSUMPTIONS = ['single thread',
               'behaviors below the cache keep different keys apart',
               'changes of the backend behind the node become visible by '
               'invalidation']

MISS = object()


class Loaded(object):
    """What a backend read yields: a fresh object per read."""

    def __init__(self, val):
        self.val = val

    def __eq__(self, other):
        return isinstance(other, Loaded) and other.val == self.val

    def __hash__(self):
        return hash(self.val)

    def __repr__(self):
        return 'Loaded(%r)' % (self.val,)


class Equal(object):
    """Equal to all of its kind."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Equal(%d)' % self.n


EQUAL = tuple(Equal(n) for n in range(3))


class Refused(Exception):
    pass


class Backend(object):
    """Dictionary backend counting reads."""
    fresh = True

    def __init__(self):
        self.data = odict()
        self.reads = 0
        self.fault = None

    def __getitem__(self, key):
        self.reads += 1
        val = self.data[key]
        return Loaded(val) if self.fresh else val

    def __setitem__(self, key, val):
        if self.fault == 'before':
            raise Refused(key)
        self.data[key] = val.val if isinstance(val, Loaded) else val
        if self.fault == 'after':
            raise Refused(key)

    def __delitem__(self, key):
        if self.fault == 'before':
            raise Refused(key)
        del self.data[key]
        if self.fault == 'after':
            raise Refused(key)

    def __iter__(self):
        return iter(self.data)

    def invalidate(self, key=None):
        """Nothing held here."""


@plumbing(Cache, FullMapping)
class Bare(Backend):
    pass


@plumbing(Cache, FullMapping)
class BareSame(Backend):
    fresh = False


@plumbing(Cache, Nodify)
class BareNode(Backend):
    pass


@plumbing(Cache, UnicodeAware, FullMapping)
class BareUnicode(Backend):
    pass


class OwnCache(object):

    @property
    def cache(self):
        return self.__dict__.setdefault('_mine', odict())


@plumbing(Cache, FullMapping)
class BareOwn(OwnCache, Backend):
    """The cache itself is supplied by the class."""


class BareSub(Bare):
    """Inherits caching."""

    def __getitem__(self, key):
        return super(BareSub, self).__getitem__(key)


class Picky(Backend):
    """Refuses to invalidate what it does not hold."""

    def invalidate(self, key=None):
        if key is not None and key not in self.data:
            raise KeyError(key)


@plumbing(Cache, FullMapping)
class BarePicky(Picky):
    pass


class BareSuperSet(Bare):
    """Reads before writing, as behaviors below a cache may do."""

    def __setitem__(self, key, val):
        try:
            self[key]
        except KeyError:
            pass
        super(BareSuperSet, self).__setitem__(key, val)


BARE = {'Bare': Bare, 'BareSame': BareSame, 'BareNode': BareNode,
        'BareOwn': BareOwn, 'BareSub': BareSub, 'BareSuperSet': BareSuperSet,
        'BareUnicode': BareUnicode, 'BarePicky': BarePicky}


class BareMachine(Machine):
    """A cache over a backend.

    Model: data (what the backend holds), kept: key -> object a read returned
    since the last write or invalidation of the key.
    """

    def __init__(self, cls, depth, faults, values, keys=('a', 'b'),
                 filled=False):
        self.filled = filled
        self.cls = cls
        self.keys = keys
        self.depth = depth
        self.faults = faults
        self.values = values
        self.name = 'bare-%s%s%s' % (
            cls, '-falsy' if values[0] is None else
            '' if isinstance(values[0], str) else '-equal',
            '' if keys == ('a', 'b') else '-keys-%r-%r' % keys)
        if filled:
            self.name += '-filled'

    def fresh(self):
        # a second instance which must not notice anything
        s = State(ms=[BARE[self.cls](), BARE[self.cls]()],
                  data=[odict(), odict()], kept=[{}, {}], n=0,
                  # invalidated, neither read nor written since
                  gone=[set(), set()])
        if self.filled:
            for k in self.keys:
                self.apply(s, ('set', 0, k, self.values[0]))
                self.apply(s, ('read', 0, k))
        return s

    def ops(self, s):
        for i in (0, 1):
            for k in self.keys:
                if i == 1 and k == self.keys[1]:
                    continue
                for v in self.values[:2 if i == 0 else 1]:
                    yield ('set', i, k, v)
                yield ('read', i, k)
                yield ('del', i, k)
                yield ('inv', i, k)
                yield ('ext', i, k, self.values[-1])
                if i:
                    continue
                yield ('extdel', i, k)
                yield ('get', i, k)
                yield ('pop', i, k)
                yield ('popd', i, k)
                yield ('setdefault', i, k, self.values[0])
                yield ('update', i, k, self.values[0])
                for f in self.faults:
                    yield ('set', i, k, self.values[0], f)
                    yield ('del', i, k, f)
            yield ('invall', i)
            if i == 0:
                yield ('clear', i)
                yield ('popitem', i)
                yield ('values', i)

    def loaded(self, m, val):
        return Loaded(val) if m.fresh else val

    def touch(self, s, i, k):
        s.kept[i].pop(k, None)
        s.gone[i].discard(k)

    def read(self, s, i, k, fn, what):
        """A read through the node: right value, cached if it was kept."""
        m, data, kept = s.ms[i], s.data[i], s.kept[i]
        before = m.reads
        out = outcome(fn)
        asked = m.reads - before
        if k in kept:
            expect(what, out, ('is', kept[k]))
            if asked:
                fail('%s asked the backend %d times although the key had been '
                     'read before', what, asked)
            return 'cached'
        if k not in data:
            return out
        expect(what, out, ('ok', self.loaded(m, data[k])))
        if type(out[1]) is not type(self.loaded(m, data[k])):
            fail('%s gave %r, expected %r', what, out[1], data[k])
        stored = out[1].val if isinstance(out[1], Loaded) else out[1]
        if stored is not data[k]:
            fail('%s gave an equal value, not the stored one', what)
        if asked > 1:
            fail('%s asked the backend %d times', what, asked)
        if not asked and k in s.gone[i]:
            fail('%s did not ask the backend after invalidation', what)
        s.gone[i].discard(k)
        kept[k] = out[1]
        return 'read'

    def apply(self, s, op):
        kind, i = op[:2]
        m, data, kept = s.ms[i], s.data[i], s.kept[i]
        k = op[2] if len(op) > 2 else None
        if kind == 'read':
            got = self.read(s, i, k, lambda: m[k], 'm[%r]' % (k,))
            if isinstance(got, tuple):
                expect('m[%r]' % (k,), got, ('raise', KeyError))
                return 'missing'
            return got
        if kind == 'get':
            got = self.read(s, i, k, lambda: m.get(k, MISS), 'get(%r)' % (k,))
            if isinstance(got, tuple):
                expect('get(%r)' % (k,), got, ('is', MISS))
                return 'missing'
            return got
        if kind == 'ext':
            m.data[k] = data[k] = op[3]
            return
        if kind == 'extdel':
            m.data.pop(k, None)
            data.pop(k, None)
            return
        if kind == 'set':
            fault = op[4] if len(op) > 4 else None
            m.fault = fault
            out = outcome(lambda: m.__setitem__(k, op[3]))
            m.fault = None
            if fault != 'before':
                data[k] = op[3]
            self.touch(s, i, k)
            expect('set %r' % (k,), out,
                   ('raise', Refused) if fault else ('any',))
            return fault
        if kind == 'del':
            fault = op[3] if len(op) > 3 else None
            m.fault = fault
            out = outcome(lambda: m.__delitem__(k))
            m.fault = None
            if fault == 'before':
                expect('del', out, ('raise', Refused))
            elif k not in data:
                expect('del', out, ('raise', KeyError))
                self.touch(s, i, k)
                return 'missing'
            else:
                expect('del', out, ('raise', Refused) if fault else ('any',))
                del data[k]
            self.touch(s, i, k)
            return fault
        if kind == 'update':
            expect('update', outcome(lambda: m.update([(k, op[3])])),
                   ('any',))
            data[k] = op[3]
            self.touch(s, i, k)
            return
        if kind == 'setdefault':
            out = outcome(lambda: m.setdefault(k, op[3]))
            if k in kept or k in data:
                want = kept.get(k, MISS)
                if want is not MISS:
                    expect('setdefault', out, ('is', want))
                else:
                    expect('setdefault', out,
                           ('ok', self.loaded(m, data[k])))
                    kept[k] = out[1]
                return 'present'
            expect('setdefault', out, ('ok', op[3]))
            data[k] = op[3]
            self.touch(s, i, k)
            return
        if kind in ('pop', 'popd'):
            out = outcome((lambda: m.pop(k)) if kind == 'pop'
                          else (lambda: m.pop(k, MISS)))
            if k not in data:
                # what a cached value of a key deleted behind does is open
                if k not in kept:
                    expect('pop', out, ('is', MISS) if kind == 'popd'
                           else ('raise', KeyError))
                self.touch(s, i, k)
                return 'missing'
            expect('pop', out, ('is', kept[k]) if k in kept
                   else ('ok', self.loaded(m, data[k])))
            del data[k]
            self.touch(s, i, k)
            return
        if kind == 'inv':
            expect('invalidate(%r)' % (k,), outcome(lambda: m.invalidate(k)),
                   ('raise', KeyError) if isinstance(m, Picky)
                   and k not in data else ('any',))
            self.touch(s, i, k)
            s.gone[i].add(k)
            return
        if kind == 'invall':
            expect('invalidate()', outcome(lambda: m.invalidate()), ('any',))
            kept.clear()
            s.gone[i].update(self.keys)
            return
        if kind == 'clear':
            expect('clear', outcome(lambda: m.clear()), ('any',))
            for k in list(data):
                self.touch(s, i, k)
            data.clear()
            return
        if kind == 'popitem':
            out = outcome(lambda: m.popitem())
            if not data:
                expect('popitem', out, ('raise', KeyError))
                return 'empty'
            expect('popitem', out, ('any',))
            k = out[1][0]
            if k not in data or not out[1][1] == kept.get(
                    k, self.loaded(m, data[k])):
                fail('popitem gave %r, stored %r', out[1], data)
            del data[k]
            self.touch(s, i, k)
            return
        if kind == 'values':
            out = outcome(lambda: list(m.values()))
            expect('values', out, ('any',))
            if len(out[1]) != len(data):
                fail('values %r, stored %r', out[1], data)
            for (k, v), got in zip(list(data.items()), out[1]):
                if k in kept:
                    if got is not kept[k]:
                        fail('values yield %r for %r, expected cached %r',
                             got, k, kept[k])
                elif not got == self.loaded(m, v):
                    fail('values yield %r for %r, stored %r', got, k, v)
                else:
                    kept[k] = got

    def check(self, s):
        for i in (0, 1):
            m, data = s.ms[i], s.data[i]
            if list(m) != list(data) or len(m) != len(data):
                fail('node %d enumerates %r, stored %r', i, list(m),
                     list(data))
            for k in self.keys + ('c',):
                if k not in s.kept[i] and k not in data:
                    # never cached: the backend is asked again each time
                    for n in (1, 2):
                        before = m.reads
                        expect('m[%r]' % (k,), outcome(lambda: m[k]),
                               ('raise', KeyError))
                        if m.reads == before:
                            fail('missing key %r was not looked up', k)
                        if k in m:
                            fail('missing key %r in node', k)
                    # appears as soon as it exists
                    if m.data.get(k, MISS) is MISS and k == 'c':
                        m.data[k] = 1
                        expect('m[%r]' % (k,), outcome(lambda: m[k]),
                               ('ok', self.loaded(m, 1)))
                        del m[k]
                        continue
                    continue
                for n in (1, 2):
                    got = self.read(s, i, k, lambda: m[k], 'm[%r]' % (k,))
                    if k not in m:
                        fail('key %r not in node', k)


# ---------------------------------------------------------------------------
# stacks of stock behaviors
# ---------------------------------------------------------------------------

class CountingOdict(odict):
    reads = 0

    def __getitem__(self, key):
        self.reads += 1
        return odict.__getitem__(self, key)


from node.behaviors import Storage  # noqa: E402
from node.interfaces import IOrdered  # noqa: E402
from node.utils import instance_property  # noqa: E402
from plumber import default  # noqa: E402
from zope.interface import implementer  # noqa: E402


@implementer(IOrdered)
class CountingStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return CountingOdict()


STACK = odict([
    ('V', NodeChildValidate), ('N', Nodespaces), ('A', Adopt),
    ('T', Attributes), ('L', Lifecycle), ('R', Reference), ('O', Order),
    ('U', UnicodeAware), ('F', Fallback), ('I', Alias),
])


def stack(letters):
    """Class whose behaviors are given by letters, C being the cache."""
    inv = VolatileStorageInvalidate if 'v' in letters else Invalidate
    behaviors = [Cache if x == 'C' else STACK[x] for x in letters
                 if x != 'v']
    i = behaviors.index(Cache)
    behaviors.insert(i + 1, inv)
    behaviors += [DefaultInit, Nodify, CountingStorage]
    if 'T' in letters and 'N' not in letters:
        behaviors.insert(0, Nodespaces)
    return plumbing(*behaviors)(type('Stack%s' % letters, (object,), {}))


class StackMachine(Machine):
    """Stacks around a cache holding nodes."""
    cls = None

    def __init__(self, letters, depth, filled=False):
        self.letters = letters
        self.depth = depth
        self.filled = filled
        self.name = 'stack-%s%s' % (letters, '-filled' if filled else '')

    def fresh(self):
        if self.cls is None:
            self.cls = stack(self.letters)
        cls = self.cls
        m = cls(name='root')
        s = State(m=m, data=odict(), kept={}, n=0, pool=[],
                  order=[], cls=cls)
        if self.filled:
            for op in (('set', 'a'), ('set', 'b'), ('read', 'a'),
                       ('read', 'b')):
                self.apply(s, op)
        return s

    def new(self, s, key=None):
        return s.cls(name=key)

    def ops(self, s):
        for k in ('a', 'b'):
            yield ('set', k)
            yield ('read', k)
            yield ('del', k)
            yield ('pop', k)
            yield ('setdefault', k)
            yield ('inv', k)
            yield ('detach', k)
            if 'V' in self.letters:
                yield ('bad', k)
            if 'O' in self.letters:
                yield ('ifirst', k)
                yield ('replace', k)
        yield ('invall',)
        yield ('clear',)
        yield ('popitem',)

    def apply(self, s, op):
        kind = op[0]
        k = op[1] if len(op) > 1 else None
        m, data, kept = s.m, s.data, s.kept
        if kind == 'read':
            out = outcome(lambda: m[k])
            if k not in data:
                expect('m[%r]' % (k,), out, ('raise', KeyError))
                return 'missing'
            expect('m[%r]' % (k,), out, ('is', data[k]))
            return
        if kind == 'set':
            v = self.new(s)
            expect('set', outcome(lambda: m.__setitem__(k, v)), ('any',))
            data[k] = v
            return
        if kind == 'bad':
            expect('set', outcome(lambda: m.__setitem__(k, 1)),
                   ('raise', ValueError))
            return
        if kind in ('del', 'pop', 'detach'):
            out = outcome((lambda: m.__delitem__(k)) if kind == 'del'
                          else (lambda: getattr(m, kind)(k)))
            if k not in data:
                expect(kind, out, ('raise', KeyError))
                return 'missing'
            expect(kind, out, ('any',) if kind == 'del' else ('is', data[k]))
            del data[k]
            return
        if kind == 'setdefault':
            v = self.new(s)
            out = outcome(lambda: m.setdefault(k, v))
            if k in data:
                expect(kind, out, ('is', data[k]))
                return 'present'
            expect(kind, out, ('is', v))
            data[k] = v
            return
        if kind == 'inv':
            out = outcome(lambda: m.invalidate(k))
            if k not in data:
                expect(kind, out, ('raise', KeyError))
                return 'missing'
            expect(kind, out, ('any',))
            del data[k]
            return
        if kind == 'invall':
            expect(kind, outcome(lambda: m.invalidate()), ('any',))
            data.clear()
            return
        if kind == 'clear':
            expect(kind, outcome(lambda: m.clear()), ('any',))
            data.clear()
            return
        if kind == 'popitem':
            out = outcome(lambda: m.popitem())
            if not data:
                expect(kind, out, ('raise', KeyError))
                return 'empty'
            expect(kind, out, ('any',))
            key, val = out[1]
            if data.get(key, None) is not val:
                fail('popitem gave %r', out[1])
            del data[key]
            return
        if kind == 'ifirst':
            v = self.new(s, k)
            out = outcome(lambda: m.insertfirst(v))
            if k in data:
                expect(kind, out, ('raise', KeyError))
                return 'refused'
            expect(kind, out, ('any',))
            items = [(k, v)] + list(data.items())
            data.clear()
            for key, v in items:
                data[key] = v
            return
        if kind == 'replace':
            # take out and put another one in its place under the same key
            if k not in data or len(data) < 2:
                return 'skip'
            other = [x for x in data if x != k][0]
            m.detach(k)
            v = self.new(s, k)
            expect(kind, outcome(lambda: m.insertafter(v, m[other])),
                   ('any',))
            del data[k]
            items = []
            for key, old in data.items():
                items.append((key, old))
                if key == other:
                    items.append((k, v))
            data.clear()
            for key, v in items:
                data[key] = v
            return

    def check(self, s):
        m, data = s.m, s.data
        if list(m) != list(data):
            fail('enumerates %r, expected %r', list(m), list(data))
        store = m.storage
        for k in ('a', 'b'):
            if k not in data:
                for _ in (1, 2):
                    expect('m[%r]' % (k,), outcome(lambda: m[k]),
                           ('raise', KeyError))
                if k in m or m.get(k) is not None:
                    fail('%r still in node', k)
                continue
            for n in (1, 2, 3):
                before = store.reads
                expect('m[%r]' % (k,), outcome(lambda: m[k]), ('is', data[k]))
                if n > 1 and store.reads != before:
                    fail('repeated read of %r asked the storage', k)
                if m.get(k) is not data[k]:
                    fail('get(%r) gave %r', k, m.get(k))
        vals = list(m.values())
        if len(vals) != len(data) or any(
                a is not b for a, b in zip(vals, data.values())):
            fail('values %r, expected %r', vals, data.values())


def stacks(n):
    """All letter sequences: up to n behaviors in canonical order, with the
    cache at every position."""
    out = []
    order = list(STACK)
    for k in range(n + 1):
        for sub in itertools.combinations(order, k):
            if ('R' in sub or 'O' in sub) and 'A' not in sub:
                # index and order maintenance need adoption
                continue
            for i in range(k + 1):
                out.append(''.join(sub[:i]) + 'C' + ''.join(sub[i:]))
    return out


class Factories(Machine):
    """Cache over lazily created children."""

    def __init__(self, depth, outer):
        self.depth = depth
        self.outer = outer
        self.name = 'factories-%s' % ('outer' if outer else 'inner')

    def fresh(self):
        made = []

        def make(k):
            def factory():
                child = zoo.BaseNode()
                made.append((k, child))
                return child
            return factory
        behaviors = [Adopt, Cache, VolatileStorageInvalidate, DefaultInit,
                     Nodify, ChildFactory, CountingStorage]
        if not self.outer:
            behaviors.remove(Cache)
            behaviors.insert(5, Cache)
        # the innermost invalidate implementation has to lie below the cache
            behaviors.remove(VolatileStorageInvalidate)
            behaviors.insert(5, VolatileStorageInvalidate)
        cls = plumbing(*behaviors)(type('F', (object,), {
            'factories': odict([(k, make(k)) for k in ('a', 'b')])}))
        return State(m=cls(), made=made, cur={})

    def ops(self, s):
        for k in ('a', 'b', 'c'):
            yield ('read', k)
            yield ('inv', k)
        yield ('values',)
        yield ('invall',)
        yield ('set', 'a')

    def read(self, s, k):
        n = len(s.made)
        out = outcome(lambda: s.m[k])
        if k == 'c':
            expect('m[c]', out, ('raise', KeyError))
            return 'missing'
        if k in s.cur:
            expect('m[%r]' % (k,), out, ('is', s.cur[k]))
            if len(s.made) != n:
                fail('child %r was created again', k)
            return 'kept'
        expect('m[%r]' % (k,), out, ('any',))
        if len(s.made) != n + 1 or s.made[-1][0] != k \
                or s.made[-1][1] is not out[1]:
            fail('reading %r created %r and gave %r', k, s.made[n:], out[1])
        s.cur[k] = out[1]
        return 'created'

    def apply(self, s, op):
        if op[0] == 'read':
            return self.read(s, op[1])
        if op[0] == 'values':
            vals = list(s.m.values())
            for k, v in zip(('a', 'b'), vals):
                if k in s.cur and s.cur[k] is not v:
                    fail('values give %r for %r, expected %r', v, k, s.cur[k])
                s.cur[k] = v
            return
        if op[0] == 'set':
            v = zoo.BaseNode()
            s.m['a'] = v
            s.cur['a'] = v
            return
        if op[0] == 'inv':
            out = outcome(lambda: s.m.invalidate(op[1]))
            if op[1] == 'c':
                expect('invalidate', out, ('raise', KeyError))
                return 'missing'
            expect('invalidate', out, ('any',))
            s.cur.pop(op[1], None)
            return
        expect('invalidate', outcome(lambda: s.m.invalidate()), ('any',))
        s.cur = {}

    def check(self, s):
        for k in ('a', 'b', 'c', 'a'):
            self.read(s, k)


class Many(Cases):
    """Nodes of many children, written, read and changed at every stride."""
    name = 'many children'

    def __init__(self, sizes):
        self.sizes = sizes

    def cases(self):
        for cls in sorted(BARE):
            for size in self.sizes:
                for stride in (1, 2, 7, size - 1):
                    for change in ('set', 'del', 'inv', 'invall', 'none'):
                        yield (cls, size, stride, change)

    def run(self, case):
        name, size, stride, change = case
        m = BARE[name]()
        keys = ['k%d' % i for i in range(size)]
        data = odict()
        for i, key in enumerate(keys):
            m[key] = data[key] = i

        def read(what):
            got = [(k, getattr(v, 'val', v)) for k, v in m.items()]
            if got != list(data.items()):
                fail('%s: items are %r', what, got)
        read('first time')
        before = {k: m[k] for k in keys}
        m.reads = 0
        read('second time')
        for key in reversed(keys):
            if m[key] is not before[key]:
                fail('reading %r again yields another object', key)
        if m.reads:
            fail('%d of %d children asked again from the backend', m.reads,
                 size)
        changed = keys[::stride]
        for key in changed:
            if change == 'set':
                m[key] = data[key] = 'new'
            elif change == 'del':
                del m[key]
                del data[key]
            elif change == 'inv':
                m.invalidate(key)
        if change == 'invall':
            m.invalidate()
        m.reads = 0
        read('after %s of every %dth' % (change, stride))
        fresh = {'set': len(changed), 'inv': len(changed),
                 'invall': size}.get(change, 0)
        if m.reads != fresh:
            fail('%d children asked from the backend, %d had changed',
                 m.reads, fresh)
        read('at last')
        if m.reads != fresh:
            fail('children asked again from the backend')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for cls in BARE:
        out.append(BareMachine(cls, 3 if q else 4,
                               ('before', 'after'), ('v1', 'v2', 'v3')))
    for cls in BARE:
        out.append(BareMachine(cls, 2 if q else 3, ('before', 'after'),
                               ('v1', 'v2', 'v3'), filled=True))
    for cls, keys in (('Bare', ('', 'a')), ('BareSame', ('a', '')),
                      ('BareNode', (0, False + 2)), ('BareSub', ((), 0.5)),
                      ('BareUnicode', ('', ' ')), ('BareOwn', (0, ''))):
        out.append(BareMachine(cls, 3 if q else 4, ('after',),
                               ('v1', 'v2', 'v3'), keys))
        out.append(BareMachine(cls, 2 if q else 3, ('after',),
                               ('v1', 'v2', 'v3'), keys, filled=True))
    for cls in ('Bare', 'BareSame', 'BareNode', 'BareSuperSet'):
        out.append(BareMachine(cls, 3 if q else 4, ('after',), EQUAL))
    for cls in ('Bare', 'BareSame'):
        out.append(BareMachine(cls, 3 if q else 4, (), (None, 0, '')))
    for letters in stacks(2 if q else 3):
        out.append(StackMachine(letters, (3 if len(letters) < 3 else 2)
                                if q else (4 if len(letters) < 4 else 3)))
        out.append(StackMachine(letters, 2 if q else 3, True))
    for letters in ('VNATCLRO', 'CVNATLRO', 'VNATLROC', 'VACLRv', 'CVAv',
                    'VAOCv'):
        if letters == 'VACLRv':
            continue
        out.append(StackMachine(letters, 3 if q else 5))
        out.append(StackMachine(letters, 3 if q else 4, True))
    out.append(Many((9, 65, 300) if q else (9, 17, 65, 129, 257, 1100)))
    for outer in (True, False):
        out.append(Factories(4 if q else 6, outer))
    return out
