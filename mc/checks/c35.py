"""C35: the UNSET marker and reversed mappings."""
from mc import env  # noqa: F401
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.events import EventAttribute
from node.events import EventDispatcher
from node.serializer import deserialize
from node.serializer import serialize
from node.utils import UNSET
from node.utils import ReverseMapping
from odict import odict
import copy
import itertools
import pickle

TECHNIQUE = ('complete enumeration of nested structures holding UNSET x '
             'sequences of copy, pickle and serializer routes, and of '
             'dictionaries with colliding values; breadth first search over '
             'changes of the source of a reversed mapping, compared with a '
             'model after every change')
LEVEL_NOTE = (
    'All structures of 12 kinds of containers nested up to depth 2 (3) around '
    'UNSET, None and other falsy values x sequences of 2 of 9 '
    'routes (4 for UNSET alone); all dictionaries of up to 3 (4) keys over 14 falsy, equal and '
    'unhashable values in all orders for 9 kinds of sources; all histories of '
    'changes up to depth 3 (5) of sources with 3 keys and 5 values; values '
    'unlike themselves in every position.')
ASSUMPTIONS = ['whether values not equal to themselves are found is left open',
               'ordered dictionaries are pickled with protocol 2 or later']

LEAVES = [UNSET, None, 0, '', False]


class Holder(object):
    """Any object."""


class ValuesNode(zoo.OdictValues):
    pass


# kind -> build(*items), items(built)
def _node_attrs(*vals):
    node = zoo.AttributedNode(name='n')
    for i, val in enumerate(vals):
        node.attrs['a%d' % i] = val
    return node


def _node_children(*vals):
    node = zoo.BaseNode(name='n')
    for i, val in enumerate(vals):
        child = node['c%d' % i] = zoo.AttributedNode()
        child.attrs['v'] = val
    return node


def _values_node(*vals):
    node = zoo.OdictValues(name='n')
    for i, val in enumerate(vals):
        node['k%d' % i] = val
    return node


def _holder(*vals):
    ob = Holder()
    for i, val in enumerate(vals):
        setattr(ob, 'a%d' % i, val)
    return ob


def _keyed(*vals):
    return dict((k, vals[0]) for k in (UNSET, None, ''))


def _dict(*vals):
    return dict(('k%d' % i, v) for i, v in enumerate(vals))


def _odict(*vals):
    return odict([('k%d' % i, v) for i, v in enumerate(vals)])


def _attrs_of(ob):
    return [ob.attrs[k] for k in ob.attrs]


CONTAINERS = {
    'list': (lambda *v: list(v), list),
    'tuple': (lambda *v: tuple(v), list),
    'dict': (_dict, lambda o: [o[k] for k in sorted(o)]),
    'odict': (_odict, lambda o: o.values()),
    'keys': (_keyed, lambda o: [o[k] for k in (UNSET, None, '')]),
    'attrs': (_node_attrs, _attrs_of),
    'children': (_node_children,
                 lambda o: [c.attrs['v'] for c in o.values()]),
    'values': (_values_node, lambda o: [o[k] for k in o]),
    'object': (_holder, lambda o: [getattr(o, k)
                                   for k in sorted(o.__dict__)]),
    'deque': (lambda *v: __import__('collections').deque(v), list),
    'reverse': (lambda *v: ReverseMapping(_dict(*v)),
                lambda o: o.keys()),
    'set': (lambda *v: set(v), None),
}
# what serializes: everything of it and below it
SERIALIZABLE = {'list', 'tuple', 'dict', 'attrs', 'children'}
ROUTES = ['copy', 'deepcopy', 'pickle0', 'pickle1', 'pickle2', 'pickle3',
          'pickle4', 'pickle5', 'serialize']


def build(spec):
    """spec: index of a leaf, or (kind, spec, ...)."""
    if isinstance(spec, int):
        return LEAVES[spec]
    return CONTAINERS[spec[0]][0](*[build(s) for s in spec[1:]])


def kinds(spec):
    if isinstance(spec, int):
        return set()
    return {spec[0]}.union(*[kinds(s) for s in spec[1:]])


def same(ob, spec, what):
    if isinstance(spec, int):
        leaf = LEAVES[spec]
        if ob is not leaf and not (leaf == '' and type(ob) is str and not ob):
            fail('%s: %r (%s) instead of %r', what, ob, type(ob).__name__,
                 leaf)
        return
    if spec[0] == 'set':
        want = [LEAVES[s] for s in spec[1:]]
        if len(ob) != len(set(want)) or any(
                not any(o is w or (w == '' and o == '') or
                        (w in (0, False) and o == 0) for w in want)
                for o in ob):
            fail('%s: set %r instead of %r', what, ob, want)
        return
    vals = CONTAINERS[spec[0]][1](ob)
    if spec[0] == 'keys':
        if sorted(map(repr, ob)) != sorted(map(repr, (UNSET, None, ''))):
            fail('%s: keys %r', what, list(ob))
        for k in ob:
            if repr(k) == '<UNSET>' and k is not UNSET:
                fail('%s: another UNSET as key', what)
        vals = vals[:1]
        spec = spec[:2]
    if len(vals) != len(spec) - 1:
        fail('%s: %r has %d elements instead of %d', what, ob, len(vals),
             len(spec) - 1)
    for i, (val, sub) in enumerate(zip(vals, spec[1:])):
        same(val, sub, '%s, element %d of %s' % (what, i, spec[0]))


def go(route, ob):
    if route == 'copy':
        return copy.copy(ob)
    if route == 'deepcopy':
        return copy.deepcopy(ob)
    if route == 'serialize':
        return deserialize(serialize(ob))
    return pickle.loads(pickle.dumps(ob, int(route[6:])))


def possible(spec, seq):
    ks = kinds(spec)
    if 'serialize' in seq and not ks <= SERIALIZABLE:
        return False
    if ks & {'odict', 'attrs', 'children', 'values'} and \
            ('pickle0' in seq or 'pickle1' in seq):
        return False
    return True


def truth(ob):
    if ob is not UNSET:
        fail('got %r (%s) instead of UNSET', ob, type(ob).__name__)
    if ob or bool(ob) or not (not ob):
        fail('UNSET is true')
    if len(ob) != 0:
        fail('length of UNSET is %r', len(ob))
    if str(ob) != '' or '%s' % ob != '' or '{}'.format(ob) != '':
        fail('UNSET is printed as %r', str(ob))
    if repr(ob) != '<UNSET>':
        fail('representation of UNSET is %r', repr(ob))
    for other in (None, 0, False, '', (), [], {}, 'UNSET', '<UNSET>'):
        if ob == other or other == ob or not (ob != other):
            fail('UNSET equals %r', other)
    if not (ob == UNSET) or ob != UNSET or hash(ob) != hash(UNSET):
        fail('UNSET differs from itself')
    if ob in (None, 0, '', False) or ob not in (None, UNSET):
        fail('UNSET is found among others')


class Structures(Cases):

    def __init__(self, name, specs, length, routes=ROUTES):
        self.name = name
        self.specs = specs
        self.length = length
        self.routes = routes

    def cases(self):
        for spec in self.specs():
            for n in range(1, self.length + 1):
                for seq in itertools.product(self.routes, repeat=n):
                    if possible(spec, seq):
                        yield (spec, seq)

    def run(self, case):
        spec, seq = case
        ob = build(spec)
        # serializing turns tuples into lists
        for n, route in enumerate(seq):
            new = go(route, ob)
            same(new, spec, 'after %s' % ', '.join(seq[:n + 1]))
            same(ob, spec, 'original after %s' % route)
            ob = new
        truth(UNSET)
        if spec == 0:
            truth(ob)
        return '+'.join(sorted(kinds(spec))) or 'alone'


def flat(size):
    def specs():
        for i in range(len(LEAVES)):
            yield i
        for kind in CONTAINERS:
            if kind == 'keys':
                for i in range(len(LEAVES)):
                    yield (kind, i)
                continue
            for n in range(1, size + 1):
                for leaves in itertools.product(range(len(LEAVES)), repeat=n):
                    if 0 in leaves:
                        yield (kind,) + leaves
    return specs


def deep(depth):
    """Chains of containers with UNSET at every level."""
    def specs():
        names = [k for k in CONTAINERS if k not in ('set',)]
        for chain in itertools.product(names, repeat=depth):
            for leaf in (0, 1):
                spec = leaf
                for kind in chain:
                    spec = (kind, spec) if kind == 'keys' \
                        else (kind, spec, 0, 1)
                yield spec
    return specs


class Values(Cases):
    """UNSET and None as values, defaults and results are kept apart."""
    name = 'values and defaults'
    CLASSES = ['DictMapping', 'OdictMapping', 'DictValues', 'OdictValues',
               'attrs', 'OwnMapping', 'OwnNode']

    def cases(self):
        for cls in self.CLASSES:
            for a, b in itertools.product(range(len(LEAVES)), repeat=2):
                for d in range(len(LEAVES)):
                    yield (cls, a, b, d)

    def run(self, case):
        cls, a, b, d = case
        a, b, default = LEAVES[a], LEAVES[b], LEAVES[d]

        def new():
            node = zoo.AttributedNode(name='x').attrs if cls == 'attrs' \
                else getattr(zoo, cls)()
            node['x'] = a
            node['y'] = b
            return node
        node = new()
        for key, val in (('x', a), ('y', b)):
            expect('read', outcome(lambda: node[key]), ('is', val))
            expect('get', outcome(node.get, key), ('is', val))
            expect('get with default', outcome(node.get, key, default),
                   ('is', val))
            if key not in node:
                fail('key with value %r is missing', val)
        if [v for v in node.values() if v is not a and v is not b]:
            fail('values %r', list(node.values()))
        expect('get of a missing key', outcome(node.get, 'z'), ('is', None))
        expect('get of a missing key with default',
               outcome(node.get, 'z', default), ('is', default))
        if not hasattr(node, 'pop'):
            return 'no pop'
        for key, val in (('x', a), ('y', b)):
            expect('pop', outcome(node.pop, key, default), ('is', val))
            if key in node:
                fail('popped key is still there')
            if default is not UNSET:
                expect('pop of a missing key', outcome(node.pop, key, default),
                       ('is', default))
            expect('pop without default', outcome(node.pop, key),
                   ('raise', KeyError))
        expect('setdefault', outcome(node.setdefault, 'x', default),
               ('is', default))
        expect('second setdefault', outcome(node.setdefault, 'x', b),
               ('is', default))


class Attribute(Cases):
    """Event attributes hold and dispatch UNSET and None."""
    name = 'event attributes'
    VALS = [UNSET, None, 'x']

    def cases(self):
        for default in range(4):
            for seq in itertools.product(range(4), repeat=4):
                yield (default, seq)

    def run(self, case):
        default, seq = case
        args = () if default == 3 else (self.VALS[default],)
        Disp = type('Disp', (EventDispatcher,), {'a': EventAttribute(*args)})
        ob = Disp()
        seen = []
        ob.bind(a=seen.append)
        initial = args[0] if args else UNSET
        now = initial
        want = []
        for op in seq:
            expect('attribute', outcome(getattr, ob, 'a'), ('is', now))
            if op == 3:
                # deleting tells UNSET, unless nothing is set
                if outcome(delattr, ob, 'a')[0] == 'ok':
                    if len(seen) > len(want) or now is not initial:
                        want.append(UNSET)
                now = initial
            else:
                if self.VALS[op] is not now:
                    want.append(self.VALS[op])
                now = ob.a = self.VALS[op]
            if len(seen) != len(want) or any(
                    x is not y for x, y in zip(seen, want)):
                fail('notified of %r, expected %r', seen, want)


# ---------------------------------------------------------------------------
# reversed mappings
# ---------------------------------------------------------------------------

class EqualAll(object):
    """Equal to its kind, not hashable."""
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, EqualAll)

    def __repr__(self):
        return 'EqualAll()'


class Never(object):
    """Not even equal to itself."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Never()'


VALUES = [None, 0, '', False, UNSET, (), [], 'a', 1, True, 1.0, 'b',
          EqualAll(), EqualAll(), float('nan'), Never()]
PROBES = VALUES + [2, 'c', {}, b'a', EqualAll(), object()]
KEYS = ['a', 'b', '', 'c']


class OddDict(dict):
    """Enumerates backwards."""

    def __iter__(self):
        return iter(list(dict.__iter__(self))[::-1])

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


SOURCES = {
    'dict': dict,
    'odict': odict,
    'OddDict': OddDict,
    'DictMapping': zoo.DictMapping,
    'OdictMapping': zoo.OdictMapping,
    'OdictValues': zoo.OdictValues,
    'attrs': lambda: zoo.AttributedNode(name='x').attrs,
    'OwnMapping': zoo.OwnMapping,
    'OwnNode': zoo.OwnNode,
}


def verify(rev, source, pairs, probes, what):
    """Compare a reversed mapping with the (key, value) pairs of its source."""
    def listed(name, got, want):
        got = list(got)
        if len(got) != len(want) or any(
                x is not y for x, y in zip(got, want)):
            fail('%s: %s %r, expected %r', what, name, got, want)
    ks, vs = [k for k, v in pairs], [v for k, v in pairs]
    if len(rev) != len(pairs):
        fail('%s: length %d, expected %d', what, len(rev), len(pairs))
    listed('enumerates', rev, vs)
    listed('keys', rev.keys(), vs)
    listed('values', rev.values(), ks)
    items = list(rev.items())
    if any(len(i) != 2 for i in items):
        fail('%s: items %r', what, items)
    listed('values of items', [i[0] for i in items], vs)
    listed('keys of items', [i[1] for i in items], ks)
    default = object()
    for probe in probes:
        first = [k for k, v in pairs if v == probe][:1]
        if probe != probe:
            # membership and lookup agree
            first = [k for k, v in pairs if v is probe][:1] \
                if probe in rev else []
        if (probe in rev) is not bool(first):
            fail('%s: %r in it is %r', what, probe, probe in rev)
        if first:
            expect('%s: key of %r' % (what, probe),
                   outcome(lambda: rev[probe]), ('is', first[0]))
            expect('%s: get %r' % (what, probe), outcome(rev.get, probe),
                   ('is', first[0]))
            expect('%s: get %r with default' % (what, probe),
                   outcome(rev.get, probe, default), ('is', first[0]))
        else:
            expect('%s: key of %r' % (what, probe),
                   outcome(lambda: rev[probe]), ('raise', KeyError))
            expect('%s: get %r' % (what, probe), outcome(rev.get, probe),
                   ('is', None))
            expect('%s: get %r with default' % (what, probe),
                   outcome(rev.get, probe, default), ('is', default))
    now = [(k, source[k]) for k in source]
    if len(now) != len(pairs) or any(
            x[0] is not y[0] or x[1] is not y[1] for x, y in zip(now, pairs)):
        fail('%s: source changed to %r', what, now)


class Reversed(Cases):

    def __init__(self, name, size, sources, values):
        self.name = name
        self.size = size
        self.sources = sources
        self.values = values

    def cases(self):
        for source in self.sources:
            for n in range(self.size + 1):
                for keys in itertools.permutations(range(len(KEYS)), n):
                    if n == self.size and keys[0] > keys[-1]:
                        # one of two opposite orders of the largest ones
                        continue
                    for vals in itertools.product(self.values, repeat=n):
                        yield (source, keys, vals)

    def run(self, case):
        name, keys, vals = case
        source = SOURCES[name]()
        pairs = [(KEYS[k], VALUES[v]) for k, v in zip(keys, vals)]
        for k, v in pairs:
            source[k] = v
        if name == 'OddDict':
            pairs = pairs[::-1]
        rev = ReverseMapping(source)
        verify(rev, source, pairs, PROBES, 'reversed %s' % name)
        # reversed twice: the source itself, if its values differ
        if all(a == b or x[1] != y[1] for a, x in enumerate(pairs)
               for b, y in enumerate(pairs)) and \
                all(x[1] == x[1] for x in pairs):
            verify(ReverseMapping(rev), rev, [(v, k) for k, v in pairs],
                   KEYS + [None, 'z'], 'twice reversed %s' % name)
            return 'one to one'
        return 'colliding'


class Between(Cases):
    """Whatever was looked up before a change, the change shows."""
    name = 'lookups between changes'

    LOOKS = {
        'item': lambda r, v: r[v], 'get': lambda r, v: r.get(v, 'none'),
        'in': lambda r, v: v in r, 'keys': lambda r, v: r.keys(),
        'values': lambda r, v: r.values(), 'items': lambda r, v: r.items(),
        'len': lambda r, v: len(r), 'iter': lambda r, v: list(r),
        'next': lambda r, v: next(iter(r), 'none'),
    }

    def __init__(self, sources, vals):
        self.sources = sources
        self.vals = vals

    def cases(self):
        vals = range(-1, len(self.vals))
        for source in self.sources:
            for before in itertools.product(vals, repeat=3):
                for k in range(3):
                    for new in vals:
                        if before[k] == new:
                            continue
                        yield (source, before, k, new)

    def pairs(self, state, order):
        return [(KEYS[i], self.vals[state[i]]) for i in order]

    def looks(self, rev, pairs, how, v):
        out = outcome(self.LOOKS[how], rev, v)
        first = [k for k, x in pairs if x == v][:1]
        ks, vs = [k for k, x in pairs], [x for k, x in pairs]
        if how == 'item':
            want = ('is', first[0]) if first else ('raise', KeyError)
            expect('reversed[%r]' % (v,), out, want)
            return
        want = {
            'get': first[0] if first else 'none', 'in': bool(first),
            'keys': vs, 'iter': vs, 'values': ks,
            'items': list(zip(vs, ks)), 'len': len(ks),
            'next': vs[0] if vs else 'none'}[how]
        if out != ('ok', want):
            fail('%s of %r gives %r, expected %r', how, v, out, want)

    def run(self, case):
        name, before, k, new = case
        for look in sorted(self.LOOKS):
            for v in self.vals:
                for again in sorted(self.LOOKS):
                    for w in self.vals:
                        if look not in ('item', 'get', 'in') and \
                                v is not self.vals[0]:
                            continue
                        if again not in ('item', 'get', 'in') and \
                                w is not self.vals[0]:
                            continue
                        self.one(name, before, k, new, look, v, again, w)
        return 'shown'

    def one(self, name, before, k, new, look, v, again, w):
        source = SOURCES[name]()
        order = [i for i in range(3) if before[i] >= 0]
        for key, val in self.pairs(before, order):
            source[key] = val
        rev = ReverseMapping(source)
        self.looks(rev, self.pairs(before, order), look, v)
        if new < 0:
            del source[KEYS[k]]
            order.remove(k)
        else:
            source[KEYS[k]] = self.vals[new]
            if k not in order:
                order.append(k)
        after = before[:k] + (new,) + before[k + 1:]
        self.looks(rev, self.pairs(after, order), again, w)


class Changes(Machine):
    """Changes of the source show in the reversed mapping."""

    def __init__(self, source, depth):
        self.source = source
        self.name = 'changes of %s' % source
        self.depth = depth

    VALS = [0, 2, 4, 8, 9]

    def fresh(self):
        source = SOURCES[self.source]()
        return State(source=source, rev=ReverseMapping(source), pairs=[],
                     it=None)

    def ops(self, s):
        for k in range(3):
            for v in self.VALS:
                yield ('set', k, v)
            if any(p[0] == KEYS[k] for p in s.pairs):
                yield ('del', k)
        if s.pairs:
            yield ('read',)

    def apply(self, s, op):
        if op[0] == 'read':
            # reading in between keeps nothing
            verify(s.rev, s.source, self.ordered(s), PROBES, 'reading')
            return None
        key = KEYS[op[1]]
        if op[0] == 'set':
            s.source[key] = VALUES[op[2]]
            for i, (k, v) in enumerate(s.pairs):
                if k == key:
                    s.pairs[i] = (k, VALUES[op[2]])
                    break
            else:
                s.pairs.append((key, VALUES[op[2]]))
        else:
            del s.source[key]
            s.pairs = [p for p in s.pairs if p[0] != key]
        return None

    def ordered(self, s):
        return s.pairs[::-1] if self.source == 'OddDict' else s.pairs

    def check(self, s):
        verify(s.rev, s.source, self.ordered(s), PROBES,
               'reversed %s after the change' % self.source)
        verify(ReverseMapping(s.source), s.source, self.ordered(s), PROBES,
               'newly reversed %s' % self.source)

    def roots(self, s):
        return [s.source, s.rev, s.pairs]


def tasks(tier):
    quick = tier == 'quick'
    out = [
        Structures('flat structures', flat(2 if quick else 3), 2),
        Structures('nested structures', deep(2 if quick else 3), 2 if quick
                   else 2),
        Structures('UNSET alone', lambda: iter([0, 1]), 4),
        Values(), Attribute(),
        Reversed('reversed dictionaries', 2 if quick else 3,
                 sorted(SOURCES), range(len(VALUES))),
        Between(['dict', 'OdictValues'] if quick else sorted(SOURCES),
                [0, 'b'] if quick else [0, 'b', None]),
        Reversed('values unlike themselves', 3, ['dict', 'OdictMapping'],
                 [1, 3, 14, 15]),
        Reversed('larger reversed dictionaries', 3 if quick else 4,
                 ['dict', 'OdictValues'], [0, 3, 4, 7, 8] if quick
                 else [0, 2, 3, 4, 6, 7, 8, 12]),
    ]
    for source in sorted(SOURCES):
        out.append(Changes(source, 3 if quick else 5))
    return out
