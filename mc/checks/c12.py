"""C12: an aliased node is a mapping over the aliased keys."""
from mc import zoo
from mc.checks.c11 import MISS
from mc.checks.c11 import build
from mc.checks.c11 import ref_alias
from mc.checks.c11 import ref_unalias
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FullMapping
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import DictAliaser
from node.interfaces import IAliaser
from odict import odict
from plumber import plumbing
from zope.interface import directlyProvides
from zope.interface import implementer
from zope.interface.common.mapping import IEnumerableMapping
from zope.interface.common.mapping import IFullMapping
import itertools

TECHNIQUE = ('explicit-state BFS over histories of mapping operations on '
             'aliased nodes and of writes to the aliased storage, against a '
             'dictionary of real keys and reference translations')
LEVEL_NOTE = (
    'Every history up to the depth (usually up to the fixpoint) for 9 aliased '
    'classes x 17 aliasers, over listed, unlisted, prefixed and unprefixed '
    'keys, with data present before aliasing. Trusts the reference.')
ASSUMPTIONS = ['the aliaser is unambiguous for the keys used',
               'aliaser chains containing a dictionary see listed keys only',
               'the alias behavior is the innermost one above the storage']


@plumbing(Alias)
class AliasDict(dict):
    raw_set = dict.__setitem__
    raw_del = dict.__delitem__
    raw_keys = dict.__iter__
    raw_get = dict.__getitem__


@plumbing(Alias)
class AliasOdict(odict):
    raw_set = odict.__setitem__
    raw_del = odict.__delitem__
    raw_keys = odict.__iter__
    raw_get = odict.__getitem__


class Storage(object):
    """Access to real keys of storage backed nodes."""

    def raw_set(self, k, v):
        self.storage[k] = v

    def raw_del(self, k):
        del self.storage[k]

    def raw_keys(self):
        return iter(self.storage)

    def raw_get(self, k):
        return self.storage[k]


@plumbing(Alias, FullMapping, OdictStorage)
class AliasMapping(Storage):
    pass


@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class AliasNode(Storage):
    pass


@plumbing(NodeChildValidate, Adopt, Alias, DefaultInit, Nodify, DictStorage)
class AliasDictNode(Storage):
    pass


@plumbing(NodeChildValidate, Adopt, Attributes, Alias, DefaultInit, Nodify,
          OdictStorage)
class AliasAttributed(Storage):
    pass


@plumbing(Alias)
class AliasedAttributes(NodeAttributes):

    raw_set = Storage.raw_set
    raw_del = Storage.raw_del
    raw_keys = Storage.raw_keys
    raw_get = Storage.raw_get


@plumbing(Alias, FullMapping)
class AliasOwn(object):
    """Aliasing over hand written primitives."""

    def __init__(self):
        self.data = odict()

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, val):
        self.data[key] = val

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def raw_set(self, k, v):
        self.data[k] = v

    def raw_del(self, k):
        del self.data[k]

    def raw_keys(self):
        return iter(self.data)

    def raw_get(self, k):
        return self.data[k]


class Picky(AliasOwn):
    """A backend refusing some keys with KeyErrors naming the real key."""

    def __setitem__(self, key, val):
        super(Picky, self).__setitem__(key, val)


# class, full mapping semantics, child factory
CLASSES = {
    'dict': (AliasDict, False, None),
    'odict': (AliasOdict, False, None),
    'mapping': (AliasMapping, True, None),
    'node': (AliasNode, True, None),
    'dictnode': (AliasDictNode, True, zoo.BaseNode),
    'attributed': (AliasAttributed, True, zoo.BaseNode),
    'attrs': (lambda: AliasedAttributes(zoo.BaseNode()), True, None),
    'own': (AliasOwn, True, None),
    'sub': (Picky, True, None),
}

@implementer(IAliaser, IEnumerableMapping)
class Whitelist(dict):
    """Enumerable, thus whitelisting, but no DictAliaser."""

    def alias(self, key):
        for a, k in self.items():
            if k == key:
                return a
        raise KeyError(key)

    def unalias(self, key):
        return self[key]


class Direct(object):
    """Aliaser whose instances are declared to be enumerable."""

    def __init__(self, data):
        self.data = Whitelist(data)
        self.alias = self.data.alias
        self.unalias = self.data.unalias
        directlyProvides(self, IAliaser, IFullMapping)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.data, name)


class SubAliaser(DictAliaser):
    pass


OWN = {'w': Whitelist, 'i': Direct, 'u': SubAliaser}


# aliaser spec, aliases to use (valid and refused), real keys written below it
LISTED = (('x', 'a'), ('y', 'b'))
ALIASERS = {
    'none': (None, ['a', 'p-a', ''], ['b']),
    'alike': (None, [1, '1', None, 'None', 1.5], [(1,), '(1,)', '1.5']),
    'likewise': (('d', ((1, '1'), ('1', 1), (None, 'x'), ('None', 'y')), True),
                 [1, '1', None, 'None', 2], ['1', 1, 'x', 'z']),
    'prefix': (('p', 'p-'), ['p-a', 'p-', 'a', '-a'], ['b', 'p-b']),
    'suffix': (('s', '-s'), ['a-s', '-s', 'a', 's'], ['b', 'b-s']),
    'noprefix': (('p', None), ['a', ''], ['b']),
    'nosuffix': (('s', ''), ['a', ''], ['b']),
    'both': (('ps', 'p-', '-s'), ['p-a-s', 'p--s', 'a', 'p-a', 'p-s'], ['b']),
    'strict': (('d', LISTED, True), ['x', 'y', 'a', 'z'], ['a', 'c', 'x']),
    'loose': (('d', LISTED, False), ['x', 'y', 'z'], ['a', 'c']),
    'empty': (('d', (), True), ['a', 'x'], ['a', 'c']),
    'emptyloose': (('d', (), False), ['a', 'x'], ['b']),
    'falsy': (('d', (('', 'a'), ('0', '')), True), ['', '0', 'a'],
              ['', 'c']),
    'whitelist': (('d', LISTED, True, 'w'), ['x', 'y', 'a'], ['a', 'c', 'x']),
    'direct': (('d', LISTED, True, 'i'), ['x', 'y', 'a'], ['a', 'c', 'x']),
    'inherited': (('d', LISTED, True, 'u'), ['x', 'y', 'a'], ['a', 'c', 'x']),
    'chain': (('c', (('d', LISTED, True), ('p', 'p-'), ('s', '-s'))),
              ['p-x-s', 'p-y-s', 'x', 'p-z-s', 'p-a-s'], ['a']),
    'nested': (('c', (('p', 'q'), ('c', (('s', 'q'), ('p', 'r'))))),
               ['rqaq', 'rqq', 'qaq', 'rq'], ['b', 'q']),
}


class Aliased(Machine):

    def __init__(self, cls, aliaser, depth, late):
        self.cls = cls
        self.spec, self.aliases, self.reals = ALIASERS[aliaser]
        self.late = late
        self.depth = depth
        self.name = 'aliased-%s-%s%s' % (cls, aliaser, '-late' if late else '')

    def fresh(self):
        factory, full, child = CLASSES[self.cls]
        m = factory()
        s = State(m=m, data=odict(), child=child, full=full, vals=[])
        if self.late:
            for k in self.reals:
                v = self.value(s)
                m.raw_set(k, v)
                s.data[k] = v
        if self.spec is not None:
            m.aliaser = OWN[self.spec[3]](self.spec[1]) \
                if len(self.spec) == 4 else build(self.spec)
        return s

    def value(self, s):
        if s.child is not None:
            v = s.child()
            v._n = len(s.vals)
        else:
            v = ('v%d' % (len(s.vals) % 2), None, 0)[len(s.vals) % 3]
        s.vals.append(v)
        return v

    # ------------------------------------------------------------ reference
    def un(self, alias):
        return alias if self.spec is None else ref_unalias(self.spec, alias)

    def al(self, real):
        return real if self.spec is None else ref_alias(self.spec, real)

    def visible(self, s):
        out = []
        for k, v in s.data.items():
            a = self.al(k)
            if a is not MISS:
                out.append((a, v))
        return out

    def ops(self, s):
        for a in self.aliases:
            yield ('set', a)
            yield ('del', a)
            if s.full:
                yield ('pop', a)
                yield ('popd', a)
                yield ('setdefault', a)
        for k in self.reals:
            yield ('rawset', k)
            yield ('rawdel', k)
        if s.full:
            yield ('popitem',)
            yield ('clear',)
            yield ('update', tuple(a for a in self.aliases
                                   if self.un(a) is not MISS)[:2])
            yield ('updatebad', self.aliases[-1])

    def put(self, s, real, v):
        s.data[real] = v

    def apply(self, s, op):
        kind = op[0]
        m = s.m
        if kind == 'set':
            real = self.un(op[1])
            v = self.value(s)
            out = outcome(lambda: m.__setitem__(op[1], v))
            if real is MISS:
                expect('set %r' % op[1], out, ('raise', KeyError))
                return 'refused'
            expect('set %r' % op[1], out, ('any',))
            self.put(s, real, v)
            return 'ok'
        if kind in ('del', 'pop', 'popd'):
            real = self.un(op[1])
            default = object()
            if kind == 'del':
                out = outcome(lambda: m.__delitem__(op[1]))
            elif kind == 'pop':
                out = outcome(lambda: m.pop(op[1]))
            else:
                out = outcome(lambda: m.pop(op[1], default))
            if real is MISS or real not in s.data:
                if kind == 'popd':
                    expect('pop %r' % op[1], out, ('is', default))
                    return 'default'
                expect('%s %r' % op, out, ('raise', KeyError))
                self.names_key(out[1], op[1], real)
                return 'missing'
            want = s.data.pop(real)
            expect('%s %r' % op, out,
                   ('any',) if kind == 'del' else ('is', want))
            return 'ok'
        if kind == 'setdefault':
            real = self.un(op[1])
            v = self.value(s)
            out = outcome(lambda: m.setdefault(op[1], v))
            if real is MISS:
                expect('setdefault %r' % op[1], out, ('raise', KeyError))
                return 'refused'
            if real in s.data:
                expect('setdefault %r' % op[1], out, ('is', s.data[real]))
                return 'kept'
            expect('setdefault %r' % op[1], out, ('is', v))
            self.put(s, real, v)
            return 'ok'
        if kind == 'rawset':
            v = self.value(s)
            m.raw_set(op[1], v)
            self.put(s, op[1], v)
            return 'ok'
        if kind == 'rawdel':
            out = outcome(lambda: m.raw_del(op[1]))
            if op[1] in s.data:
                del s.data[op[1]]
                return 'ok'
            return 'missing'
        if kind == 'popitem':
            vis = self.visible(s)
            out = outcome(lambda: m.popitem())
            if not vis:
                expect('popitem', out, ('raise', KeyError))
                return 'empty'
            expect('popitem', out, ('any',))
            k, v = out[1]
            if not any(k == a and v is x for a, x in vis):
                fail('popitem gave %r, stored are %r', out[1], vis)
            del s.data[self.un(k)]
            return 'ok'
        if kind == 'clear':
            expect('clear', outcome(lambda: m.clear()), ('any',))
            for a, _ in self.visible(s):
                del s.data[self.un(a)]
            return 'ok'
        if kind == 'update':
            pairs = [(a, self.value(s)) for a in op[1]]
            expect('update %r' % (pairs,), outcome(lambda: m.update(pairs)),
                   ('any',))
            for a, v in pairs:
                self.put(s, self.un(a), v)
            return 'ok'
        if kind == 'updatebad':
            v = self.value(s)
            out = outcome(lambda: m.update({op[1]: v}))
            if self.un(op[1]) is MISS:
                expect('update %r' % (op[1],), out, ('raise', KeyError))
                return 'refused'
            self.put(s, self.un(op[1]), v)
            return 'ok'

    def names_key(self, exc, key, real):
        """Errors about missing items name the alias, refusals contain it."""
        if real is not MISS:
            if exc.args != (key,):
                fail('KeyError for %r names %r', key, exc.args)
        elif self.spec[0] in ('d', 'p', 's'):
            if not any(key == a or repr(key) in str(a) or
                       '%s' % key in str(a) for a in exc.args):
                fail('KeyError for refused %r names %r', key, exc.args)

    def check(self, s):
        m = s.m
        real = list(m.raw_keys())
        if sorted(real, key=repr) != sorted(s.data, key=repr) or any(
                m.raw_get(k) is not s.data[k] for k in real):
            fail('stored keys are %r, expected %r', real, list(s.data))
        vis = dict(self.visible(s))
        order = [self.al(k) for k in real if self.al(k) is not MISS]
        for _ in range(2):
            if list(m) != order:
                fail('enumerates %r, expected %r', list(m), order)
        for a in order + self.aliases + self.reals + ['nope', '', 'p-', 'x']:
            want = MISS
            k = self.un(a)
            if k is not MISS:
                want = s.data.get(k, MISS)
            out = outcome(lambda: m[a])
            if want is MISS:
                expect('m[%r]' % a, out, ('raise', KeyError))
                self.names_key(out[1], a, k)
                for bad in (lambda: m.__delitem__(a),):
                    out = outcome(bad)
                    expect('del m[%r]' % a, out, ('raise', KeyError))
                    self.names_key(out[1], a, k)
            else:
                expect('m[%r]' % a, out, ('is', want))
            if s.full:
                if (a in m) != (want is not MISS):
                    fail('%r in node is %r', a, a in m)
                d = object()
                if m.get(a, d) is not (d if want is MISS else want):
                    fail('get(%r) gave %r', a, m.get(a, d))
                if m.has_key(a) != (want is not MISS):  # noqa
                    fail('has_key(%r) is %r', a, m.has_key(a))
        if list(vis) and sorted(vis, key=repr) != sorted(order, key=repr):
            fail('visible %r, order %r', vis, order)
        if s.full:
            if list(m.keys()) != order or len(m) != len(order):
                fail('keys %r len %r, expected %r', m.keys(), len(m), order)
            if list(m.iterkeys()) != order:
                fail('iterkeys %r, expected %r', list(m.iterkeys()), order)
            vals = [vis[a] for a in order]
            for got in (list(m.values()), list(m.itervalues()),
                        [v for _, v in m.items()],
                        [v for _, v in m.iteritems()]):
                if len(got) != len(vals) or any(
                        x is not y for x, y in zip(got, vals)):
                    fail('values %r, expected %r', got, vals)
            if [k for k, _ in m.items()] != order:
                fail('items %r, expected keys %r', m.items(), order)


class Switched(Cases):
    """Another aliaser, or the same one configured anew, later on."""
    name = 'switched'

    def cases(self):
        for cls in CLASSES:
            for a, b in itertools.permutations(ALIASERS, 2):
                # keys which are no text cannot be prefixed
                if 'chain' in (a, b) or \
                        len({a, b} & {'alike', 'likewise'}) == 1:
                    continue
                for same in (False, True):
                    if same and not self.alike(a, b):
                        continue
                    yield (cls, a, b, same)

    def alike(self, a, b):
        a, b = ALIASERS[a][0], ALIASERS[b][0]
        return a is not None and b is not None and a[0] == b[0] and \
            a[0] in 'psd' and a[2:] == b[2:]

    def fits(self, machine, s, real):
        a = machine.al(real)
        if a is MISS:
            return True
        return machine.un(a) == real and \
            type(machine.un(a)) is type(real) and \
            not any(machine.al(k) == a for k in s.data if k != real)

    def run(self, case):
        cls, a, b, same = case
        one, two = Aliased(cls, a, 1, True), Aliased(cls, b, 1, True)
        s = two.fresh()
        second = s.m.aliaser if two.spec is not None else None
        s = one.fresh()
        for k in list(s.data):
            if not self.fits(two, s, k):
                s.m.raw_del(k)
                del s.data[k]
        for machine, other in ((one, two), (two, one), (one, two)):
            machine.check(s)
            reals = [machine.un(x) for x in machine.aliases]
            for k in reals + two.reals:
                if k is MISS or k in s.data or \
                        not self.fits(one, s, k) or not self.fits(two, s, k):
                    continue
                if machine.al(k) is MISS:
                    machine.apply(s, ('rawset', k))
                else:
                    machine.apply(s, ('set', machine.al(k)))
                machine.check(s)
            if same:
                self.configure(s.m.aliaser, other.spec)
            elif machine is one:
                first, s.m.aliaser = s.m.aliaser, second
            else:
                s.m.aliaser = first
            other.check(s)
        return 'configured' if same else 'replaced'

    def configure(self, aliaser, spec):
        if spec[0] == 'p':
            aliaser.prefix = spec[1]
        elif spec[0] == 's':
            aliaser.suffix = spec[1]
        else:
            aliaser.clear()
            aliaser.update(spec[1])


def tasks(tier):
    q = tier == 'quick'
    out = [Switched()]
    for cls in CLASSES:
        for al in ALIASERS:
            main = cls in ('node', 'dict')
            depth = (3 if main else 2) if q else (5 if main else 4)
            out.append(Aliased(cls, al, depth, False))
            out.append(Aliased(cls, al, depth - 1 if q else depth, True))
    return out
