"""C01: mapping contract against a reference dictionary."""
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from mc.zoo import MAPPINGS
from node.behaviors import DictStorage
from node.behaviors import OdictStorage
from node.behaviors import mapping
from node.utils import UNSET
from odict import odict
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over operation histories on the real classes '
             'against a dict reference model')
LEVEL_NOTE = (
    'Every operation sequence up to the depth (usually up to the fixpoint of '
    'reachable states) over 3 ordinary or 4 odd keys, 32 classes; states '
    'merged only when the complete object graphs are isomorphic. Trusts the '
    'reference model and the canonicalization.')
ASSUMPTIONS = ['single thread', 'keys and values outside the alphabet behave '
               'like those inside']

MISSING = object()


class Ref(object):
    """The boring reference: a list of pairs."""

    def __init__(self):
        self.items = []

    def find(self, k):
        for i, (key, v) in enumerate(self.items):
            if key == k:
                return i
        return None

    def get(self, k):
        i = self.find(k)
        return MISSING if i is None else self.items[i][1]

    def set(self, k, v):
        i = self.find(k)
        if i is None:
            self.items.append((k, v))
        else:
            self.items[i] = (self.items[i][0], v)

    def remove(self, k):
        i = self.find(k)
        if i is None:
            return MISSING
        return self.items.pop(i)[1]

    def keys(self):
        return [k for k, _ in self.items]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def observe(m, ref, probe, ordered, what=''):
    """Compare every read of mapping m with the reference."""
    keys = ref.keys()
    got = list(m)
    if ordered:
        if got != keys:
            fail('%siteration yields %r, expected %r', what, got, keys)
    else:
        if len(got) != len(keys) or any(k not in keys for k in got) \
                or any(k not in got for k in keys):
            fail('%siteration yields %r, expected (any order) %r', what, got,
                 keys)
    vals = [ref.get(k) for k in got]
    if list(m.keys()) != got:
        fail('%skeys() %r differs from iteration %r', what, m.keys(), got)
    if list(m.iterkeys()) != got:
        fail('%siterkeys() differs from iteration %r', what, got)
    v = list(m.values())
    if not same(v, vals):
        fail('%svalues() %r, expected %r', what, v, vals)
    v = list(m.itervalues())
    if not same(v, vals):
        fail('%sitervalues() %r, expected %r', what, v, vals)
    for name in ('items', 'iteritems'):
        it = list(getattr(m, name)())
        if [k for k, _ in it] != got or not same([x for _, x in it], vals):
            fail('%s%s() %r, expected %r', what, name, it,
                 list(zip(got, vals)))
    if len(m) != len(keys):
        fail('%slen %r, expected %r', what, len(m), len(keys))
    dflt = object()
    for k in probe:
        want = ref.get(k)
        present = want is not MISSING
        expect('%s[%r]' % (what, k), outcome(lambda: m[k]),
               ('is', want) if present else ('raise', KeyError))
        if m.get(k, dflt) is not (want if present else dflt):
            fail('%sget(%r, default) returned %r', what, k, m.get(k, dflt))
        if m.get(k) is not (want if present else None):
            fail('%sget(%r) returned %r', what, k, m.get(k))
        if (k in m) is not present:
            fail('%s%r in mapping is %r', what, k, k in m)
        if bool(m.has_key(k)) is not present:
            fail('%shas_key(%r) is %r', what, k, m.has_key(k))
    # two iterators at once do not disturb each other
    pairs = list(zip(m.iterkeys(), m.iterkeys()))
    if pairs != list(zip(got, got)):
        fail('%stwo parallel iterations yield %r', what, pairs)
    if list(m) != got:
        fail('%sreading changed the mapping', what)


def values_for(child, n):
    if child is None:
        return [None, 0, '', UNSET, 'x', [], False][:n] \
            if n < 7 else [None, 0, '', UNSET, 'x', [], False]
    return [child() for _ in range(n)]


class MappingMachine(Machine):

    def __init__(self, name, spec, keys, depth, nvals=3, tag=''):
        self.name = name + tag
        self.factory, self.child, self.ordered = spec
        self.keys = keys
        self.depth = depth
        self.nvals = nvals
        self.no_merge = 1

    def fresh(self):
        s = State()
        s.m = self.factory()
        s.ref = Ref()
        s.vals = values_for(self.child, self.nvals)
        return s

    def free(self, s, i):
        if self.child is None:
            return True
        v = s.vals[i]
        return not any(x is v for _, x in s.ref.items)

    def ops(self, s):
        keys = self.keys
        free = [i for i in range(self.nvals) if self.free(s, i)]
        for k in range(len(keys)):
            for i in free:
                yield ('set', k, i)
            if self.child is not None:
                # same node again at its own place
                cur = s.ref.get(keys[k])
                for i, v in enumerate(s.vals):
                    if v is cur:
                        yield ('set', k, i)
            yield ('del', k)
            yield ('pop', k)
            yield ('popd', k, 0)
            yield ('popd', k, 1)
            if free:
                yield ('setdefault', k, free[0])
                if self.child is None:
                    yield ('setdefault', k, free[-1])
                    yield ('setdefault', k, -1)
        yield ('popitem',)
        yield ('clear',)
        yield ('update2',)
        yield ('update', 'none', ())
        if len(free) >= 2:
            a, b = free[:2]
            two = ((1, a), (0, b))
        elif free:
            two = ((0, free[0]),)
        else:
            two = ()
        for form in ('dict', 'pairs', 'odict', 'iter', 'mapping', 'kw',
                     'both'):
            if form in ('kw', 'both') and not all(
                    isinstance(k, str) for k in keys[:2]):
                continue
            yield ('update', form, two)
        if len(free) >= 2:
            # a key given twice
            a, b, c = (free + free[:1])[:3] if self.child is None \
                else (free * 2)[:3]
            if self.child is None or len(free) >= 3:
                yield ('update', 'pairs', ((1, a), (0, b), (1, c)))
                if all(isinstance(k, str) for k in keys[:2]):
                    yield ('update', 'over', ((1, a), (0, b), (1, c)))
                    yield ('update', 'overdict', ((1, a), (0, b), (1, c)))
        yield ('readkeep',)

    def apply(self, s, op):
        m, ref, keys = s.m, s.ref, self.keys
        name = op[0]
        if name == 'set':
            k, v = keys[op[1]], s.vals[op[2]]
            expect('m[%r] = %r' % (k, v), outcome(m.__setitem__, k, v),
                   ('any',))
            ref.set(k, v)
        elif name == 'del':
            k = keys[op[1]]
            want = ref.remove(k)
            expect('del m[%r]' % (k,), outcome(m.__delitem__, k),
                   ('raise', KeyError) if want is MISSING else ('any',))
            return want is MISSING
        elif name == 'pop':
            k = keys[op[1]]
            want = ref.remove(k)
            expect('pop(%r)' % (k,), outcome(m.pop, k),
                   ('raise', KeyError) if want is MISSING else ('is', want))
            return want is MISSING
        elif name == 'popd':
            k = keys[op[1]]
            dflt = (None, s.ref)[op[2]]
            want = ref.remove(k)
            expect('pop(%r, default)' % (k,), outcome(m.pop, k, dflt),
                   ('is', dflt if want is MISSING else want))
            return want is MISSING
        elif name == 'setdefault':
            k = keys[op[1]]
            cur = ref.get(k)
            if op[2] < 0:
                out = outcome(m.setdefault, k)
                dflt = None
            else:
                dflt = s.vals[op[2]]
                out = outcome(m.setdefault, k, dflt)
            if cur is MISSING:
                ref.set(k, dflt)
            expect('setdefault(%r)' % (k,), out,
                   ('is', dflt if cur is MISSING else cur))
            return cur is MISSING
        elif name == 'popitem':
            out = outcome(m.popitem)
            if not ref.items:
                expect('popitem()', out, ('raise', KeyError))
                return 'empty'
            expect('popitem()', out, ('any',))
            try:
                k, v = out[1]
            except (TypeError, ValueError):
                fail('popitem() returned %r', out[1])
            want = ref.items[-1][0] if self.ordered else k
            if k != want or ref.get(k) is not v:
                fail('popitem() returned %r, expected last item %r', (k, v),
                     ref.items[-1])
            ref.remove(k)
        elif name == 'clear':
            expect('clear()', outcome(m.clear), ('any',))
            ref.items = []
        elif name == 'update2':
            expect('update({}, {})', outcome(m.update, {}, {}),
                   ('raise', TypeError))
        elif name == 'update':
            form = op[1]
            pairs = [(keys[k], s.vals[i]) for k, i in op[2]]
            kw = {}
            if form == 'none':
                args = ()
            elif form == 'dict':
                args = (dict(pairs),)
            elif form == 'pairs':
                args = (tuple(pairs),)
            elif form == 'odict':
                args = (odict(pairs),)
            elif form == 'iter':
                args = (iter(pairs),)
            elif form == 'mapping':
                src = MAPPINGS['OdictValues'][0]()
                for k, v in pairs:
                    src[k] = v
                args = (src,)
            elif form == 'kw':
                args, kw = (), dict(pairs)
            elif form == 'over':
                args, kw = (pairs[:2],), dict(pairs[2:])
            elif form == 'overdict':
                args, kw = (dict(pairs[:2]),), dict(pairs[2:])
            else:
                args, kw = (pairs[:1],), dict(pairs[1:])
            expect('update(%s)' % form, outcome(m.update, *args, **kw),
                   ('any',))
            for k, v in pairs:
                ref.set(k, v)
        elif name == 'readkeep':
            # result containers are snapshots, not live views
            ks, vs, its = m.keys(), m.values(), m.items()
            if isinstance(ks, list):
                ks.append('zz')
                vs.append('zz')
                its.append(('zz', 'zz'))

    def check(self, s):
        observe(s.m, s.ref, self.keys + ['nokey'], self.ordered)


class Sizes(Cases):
    """Larger mappings: order, views and removal at every position."""
    name = 'sizes'

    def __init__(self, sizes):
        self.sizes = sizes

    def cases(self):
        for name in MAPPINGS:
            for n in self.sizes:
                spots = sorted(set([0, 1, n // 2, n - 2, n - 1])
                               & set(range(n)))
                for way in ('del', 'pop', 'overwrite', 'setdefault',
                            'popitem', 'clear'):
                    if way in ('popitem', 'clear'):
                        yield (name, n, way, 0)
                    else:
                        for i in spots:
                            yield (name, n, way, i)

    def run(self, case):
        name, n, way, i = case
        factory, child, ordered = MAPPINGS[name]
        m = factory()
        ref = Ref()

        def new():
            return object() if child is None else child()
        keys = ['k%02d' % ((7 * j) % 101) for j in range(n)]
        for k in keys:
            v = new()
            m[k] = v
            ref.set(k, v)
        if way == 'del':
            del m[keys[i]]
            ref.remove(keys[i])
        elif way == 'pop':
            expect('pop', outcome(m.pop, keys[i]),
                   ('is', ref.remove(keys[i])))
        elif way == 'overwrite':
            v = new()
            m[keys[i]] = v
            ref.set(keys[i], v)
        elif way == 'setdefault':
            expect('setdefault', outcome(m.setdefault, keys[i], new()),
                   ('is', ref.get(keys[i])))
        elif way == 'clear':
            m.clear()
            ref.items = []
        else:
            for _ in range(n):
                k, v = m.popitem()
                if ordered and k != ref.items[-1][0]:
                    fail('popitem returned %r, last is %r', k,
                         ref.items[-1][0])
                if ref.remove(k) is not v:
                    fail('popitem returned a wrong value for %r', k)
        observe(m, ref, keys + ['nokey'], ordered)
        v = new()
        m['again'] = v
        ref.set('again', v)
        observe(m, ref, keys + ['again'], ordered)
        return way


class Boom(Exception):
    pass


class Text(str):
    """Strings of a class of their own are the same keys."""


class Hashed(object):
    """Distinct keys sharing a hash."""

    def __hash__(self):
        return 7


def values_like(child, eq):
    """A value which is equal to every other one, or refuses comparison."""
    base = object if child is None else type(child())

    class Odd(base):
        def __eq__(self, other):
            if eq == 'raises':
                raise Boom('compared')
            return eq == 'all'

        def __ne__(self, other):
            return not self == other

        def __hash__(self):
            return 3

        def __bool__(self):
            return eq != 'all'

    return Odd()


class Corners(Cases):
    """Unusual arguments in every small state: failing and dependent update
    sources, keys and values with an own notion of equality, keyword names.
    """
    name = 'corners'

    WAYS = (
        ['fail-%d-%s' % (n, how) for n in (0, 1, 2, 3)
         for how in ('pairs', 'items', 'short', 'long', 'nopair')]
        + ['form-%s' % f for f in ('lists', 'iterators', 'mixed', 'items',
                                   'proxy', 'own')]
        + ['dependent', 'self', 'selfpairs', 'readonly']
        + ['kw-%s' % n for n in ('data', 'args', 'kw', 'key', 'val', 'value',
                                 'default', 'other', 'name', 'parent', 'keys',
                                 'items', 'cls', 'iterable', 'd', 'k')]
        + ['text-%s' % op for op in ('read', 'set', 'del', 'pop',
                                     'setdefault', 'update')]
        + ['unhashable', 'samehash', 'numbers']
        + ['value-%s-%s' % (eq, op) for eq in ('all', 'raises', 'none')
           for op in ('set', 'over', 'pop', 'popd', 'setdefault', 'popitem',
                      'del', 'clear', 'update')]
        + ['broken-%s' % m for m in ('iterkeys', 'itervalues', 'iteritems',
                                     'iter')])

    def cases(self):
        for name in MAPPINGS:
            for n in (0, 1, 2, 3):
                for way in self.WAYS:
                    yield (name, n, way)

    def run(self, case):
        name, n, way = case
        factory, child, ordered = MAPPINGS[name]
        m = factory()
        ref = Ref()

        def new():
            return object() if child is None else child()

        def put(k, v):
            m[k] = v
            ref.set(k, v)

        keys = ['a', 'b', 'c'][:n]
        for k in keys:
            put(k, new())
        probe = ['a', 'b', 'c', 'x', 'y', 'z']
        kind, _, rest = way.partition('-')
        if kind == 'fail':
            count, how = rest.split('-')
            pairs = [(k, new()) for k in ('x', 'b', 'y')[:int(count)]]
            bad = {'short': ('z',), 'long': ('z', 1, 2), 'nopair': 5}

            def source():
                for pair in pairs:
                    yield pair
                if how in bad:
                    yield bad[how]
                raise Boom('source')

            class Source(object):
                def items(self):
                    return source()

                iteritems = items

            expect('update from a failing source',
                   outcome(m.update, Source() if how == 'items' else source()),
                   ('raise', Boom if how not in bad
                    else (ValueError, TypeError)))
            for k, v in pairs:
                ref.set(k, v)
        elif kind == 'form':
            pairs = [('x', new()), ('a', new()), ('y', new())]

            class Proxy(object):
                def __init__(self, ob):
                    self.ob = ob

                def __getattr__(self, name):
                    return getattr(self.ob, name)

                def __iter__(self):
                    return iter(self.ob)

            class Own(object):
                def __iter__(self):
                    return iter('xay')

            own = Own()
            own.items = lambda: iter(pairs)
            expect('update(%s)' % rest, outcome(m.update, {
                'lists': lambda: [list(p) for p in pairs],
                'iterators': lambda: [iter(p) for p in pairs],
                'mixed': lambda: [iter(p) if i else dict.fromkeys(p)
                                  for i, p in enumerate(pairs)],
                'items': lambda: dict(pairs).items(),
                'proxy': lambda: Proxy(dict(pairs)),
                'own': lambda: own}[rest]()), ('any',))
            for k, v in pairs:
                ref.set(k, v)
        elif way == 'dependent':
            seen = []

            def source():
                for k in ('x', 'a', 'y'):
                    v = new()
                    ref.set(k, v)
                    yield k, v
                    seen.append(m.get(k) is v)
            expect('update', outcome(m.update, source()), ('any',))
            if seen != [True] * 3:
                fail('items of an update were not stored one by one: %r', seen)
        elif way == 'self':
            expect('update(itself)', outcome(m.update, m), ('any',))
        elif way == 'selfpairs':
            expect('update(own items)', outcome(m.update, m.items()),
                   ('any',))
        elif way == 'readonly':
            before = {'x': new(), 'a': new()}
            args = dict(before)
            expect('update', outcome(m.update, args), ('any',))
            if list(args.items()) != list(before.items()):
                fail('update changed its argument')
            for k, v in before.items():
                ref.set(k, v)
        elif kind == 'kw':
            v, w = new(), new()
            expect('update(%s=...)' % rest, outcome(m.update, **{rest: v}),
                   ('any',))
            ref.set(rest, v)
            expect('update(pairs, %s=...)' % rest,
                   outcome(m.update, {'x': w}, **{rest: v}), ('any',))
            ref.set('x', w)
            ref.set(rest, v)
            probe.append(rest)
        elif kind == 'text':
            k = Text('b')
            v = new()
            present = ref.get('b') is not MISSING
            if rest == 'set':
                put(k, v)
            elif rest == 'update':
                m.update([(k, v)])
                ref.set(k, v)
            elif rest == 'setdefault':
                cur = ref.get('b')
                if not present:
                    ref.set(k, v)
                expect('setdefault', outcome(m.setdefault, k, v),
                       ('is', cur if present else v))
            elif rest in ('del', 'pop'):
                cur = ref.remove('b')
                op = m.__delitem__ if rest == 'del' else m.pop
                want = ('any',) if rest == 'del' else ('is', cur)
                expect(rest, outcome(op, k),
                       want if present else ('raise', KeyError))
            probe += [Text('a'), Text('b')]
        elif way == 'unhashable':
            for k in ([], {}):
                v = new()
                for what, op in (
                        ('[]', lambda: m[k]), ('in', lambda: k in m),
                        ('get', lambda: m.get(k)),
                        ('set', lambda: m.__setitem__(k, v)),
                        ('del', lambda: m.__delitem__(k)),
                        ('pop', lambda: m.pop(k)),
                        ('pop default', lambda: m.pop(k, None)),
                        ('setdefault', lambda: m.setdefault(k, v)),
                        ('update', lambda: m.update([(k, v)]))):
                    expect('%s with an unhashable key' % what, outcome(op),
                           ('raise', TypeError))
        elif way == 'samehash':
            if name == 'UnicodeNode':
                return way
            ks = [Hashed(), Hashed(), Hashed()]
            for k in ks:
                put(k, new())
            expect('del', outcome(m.__delitem__, ks[1]), ('any',))
            ref.remove(ks[1])
            probe += ks
        elif way == 'numbers':
            put(1, new())
            v = new()
            m[True] = v
            ref.set(1, v)
            probe += [1, True, 1.0, 0, False]
            expect('pop(1.0)', outcome(m.pop, 1.0), ('is', v))
            ref.remove(1)
        elif kind == 'value':
            eq, op = rest.split('-')
            v = values_like(child, eq)
            put('b', v)
            w = values_like(child, eq)
            if op == 'over':
                put('b', w)
            elif op == 'set':
                put('x', w)
            elif op in ('pop', 'popd'):
                args = ('b',) if op == 'pop' else ('b', w)
                ref.remove('b')
                expect('pop', outcome(m.pop, *args), ('is', v))
                if op == 'popd':
                    expect('pop', outcome(m.pop, *args), ('is', w))
            elif op == 'setdefault':
                expect('setdefault', outcome(m.setdefault, 'b', w), ('is', v))
                expect('setdefault', outcome(m.setdefault, 'x', w), ('is', w))
                ref.set('x', w)
            elif op == 'popitem':
                put('x', w)
                k, got = m.popitem()
                want = ref.get(k)
                if got is not want:
                    fail('popitem() returned another value')
                ref.remove(k)
            elif op == 'del':
                del m['b']
                ref.remove('b')
            elif op == 'clear':
                m.clear()
                ref.items = []
            else:
                m.update(b=w, x=v) if child is None else m.update(b=w)
                ref.set('b', w)
                if child is None:
                    ref.set('x', v)
        elif kind == 'broken':
            # an iteration not finished leaves nothing behind
            it = iter(m) if rest == 'iter' else getattr(m, rest)()
            next(it, None)
            put('x', new())
            del it
        observe(m, ref, probe + ['nokey'], ordered)
        return kind


class Refusing(Cases):
    """Mappings of which one key must not be deleted or written, or cannot be
    read: the exception of the primitive operation gets to the caller of every
    operation built upon it, and what is refused does not happen.
    """
    name = 'refusing'

    ERRORS = (KeyError, ValueError, TypeError, AttributeError, LookupError,
              Boom)
    WAYS = {
        'delete': ('del', 'pop', 'popd', 'popitem', 'clear', 'others'),
        'write': ('set', 'setdefault', 'setdefault-there', 'update',
                  'update-kw', 'others'),
        'read': ('get', 'getitem', 'pop', 'popd', 'popitem', 'setdefault',
                 'values', 'items', 'itervalues', 'iteritems', 'others'),
    }

    def cases(self):
        for name in MAPPINGS:
            for what, ways in self.WAYS.items():
                for way in ways:
                    for pos in range(3):
                        for err in range(len(self.ERRORS)):
                            if what == 'read' and not err:
                                # a key which cannot be found is not there
                                continue
                            yield (name, what, way, pos, err)

    def run(self, case):
        name, what, way, pos, err = case
        factory, child, ordered = MAPPINGS[name]
        exc = self.ERRORS[err]
        m = factory()
        cls = type(m)
        keys = ['a', 'b', 'c']
        refused = keys[pos]
        state = {'on': False}

        def guard(method):
            orig = getattr(cls, method)

            def guarded(self, key, *args):
                if state['on'] and key == refused:
                    raise exc('refused')
                return orig(self, key, *args)
            return guarded

        method = {'delete': '__delitem__', 'write': '__setitem__',
                  'read': '__getitem__'}[what]
        m.__class__ = type(cls.__name__, (cls,), {method: guard(method)})

        def new():
            return object() if child is None else child()

        vals = {}
        for k in keys:
            if what == 'write' and k == refused and way != 'setdefault-there':
                continue
            vals[k] = new()
            m[k] = vals[k]
        state['on'] = True
        raised = ('raise', exc)
        gone = set()
        maybe = set()
        first = [k for k in keys[:pos] if k in vals]
        x = new()
        if way == 'del':
            expect('del of a refused key', outcome(m.__delitem__, refused),
                   raised)
        elif way == 'pop':
            expect('pop of a refused key', outcome(m.pop, refused), raised)
        elif way == 'popd':
            if exc is KeyError:
                outcome(m.pop, refused, x)
            else:
                expect('pop of a refused key', outcome(m.pop, refused, x),
                       raised)
        elif way == 'popitem':
            last = list(m)[-1]
            out = outcome(m.popitem)
            if last == refused:
                expect('popitem() of a refused key', out, raised)
            else:
                expect('popitem()', out, ('any',))
                if out[1][0] == refused \
                        or out[1][1] is not vals[out[1][0]]:
                    fail('popitem() returned %r', out[1])
                gone.add(out[1][0])
        elif way == 'clear':
            expect('clear() with a refused key', outcome(m.clear), raised)
            maybe = set(keys) - {refused}
        elif way == 'set':
            expect('setting a refused key',
                   outcome(m.__setitem__, refused, x), raised)
        elif way == 'setdefault':
            expect('setdefault of a refused key',
                   outcome(m.setdefault, refused, x), raised)
        elif way == 'setdefault-there':
            expect('setdefault of a key which is there',
                   outcome(m.setdefault, refused, x), ('is', vals[refused]))
        elif way in ('update', 'update-kw'):
            for k in first:
                vals[k] = new()
            new_vals = dict((k, vals.get(k) if k in first else new())
                            for k in keys)
            if way == 'update':
                out = outcome(m.update, [(k, new_vals[k]) for k in keys])
            else:
                out = outcome(m.update, **new_vals)
            expect('update with a refused key', out, raised)
        elif way == 'get':
            expect('get of a key which cannot be read',
                   outcome(m.get, refused, x), raised)
        elif way == 'getitem':
            expect('reading a refused key',
                   outcome(m.__getitem__, refused), raised)
        elif way in ('values', 'items', 'itervalues', 'iteritems'):
            expect('%s() with a key which cannot be read' % way,
                   outcome(lambda: list(getattr(m, way)())), raised)
        else:
            # the refused key is of no concern to the others
            other = keys[(pos + 1) % 3]
            third = keys[(pos + 2) % 3]
            expect('get', outcome(m.get, other), ('is', vals[other]))
            expect('setdefault', outcome(m.setdefault, other, x),
                   ('is', vals[other]))
            expect('pop', outcome(m.pop, other), ('is', vals[other]))
            expect('pop', outcome(m.pop, other, x), ('is', x))
            y = new()
            expect('update', outcome(m.update, {third: y}), ('any',))
            vals[third] = y
            gone.add(other)
        state['on'] = False
        there = list(m)
        for k in keys:
            if k not in vals or k in gone:
                if k in there:
                    fail('%r is there after the refused operation', k)
            elif k in maybe:
                if k in there and m[k] is not vals[k]:
                    fail('another value under %r', k)
            elif k not in there:
                fail('%r is gone after the refused operation', k)
            elif m[k] is not vals[k]:
                fail('another value under %r', k)
        ref = Ref()
        for k in there:
            ref.set(k, vals[k])
        observe(m, ref, keys + ['nokey'], ordered)
        return what, way


class Unlisted(Cases):
    """Mappings with keys they do not enumerate, and with items which come into
    being when they are asked for: operations on single keys go by the key.
    """
    name = 'unlisted'

    def cases(self):
        for name in MAPPINGS:
            for what in ('hidden', 'made'):
                for pos in range(4):
                    for way in ('none', 'set', 'del', 'pop', 'popd', 'update',
                                'setdefault', 'popitem', 'clear'):
                        for target in ('h', 'a', 'n'):
                            yield (name, what, pos, way, target)

    def run(self, case):
        name, what, pos, way, target = case
        factory, child, ordered = MAPPINGS[name]
        m = factory()
        cls = type(m)

        def new():
            return object() if child is None else child()

        vals = {}
        made = new()

        def enumerate_keys(self):
            return iter([k for k in cls.__iter__(self) if k != 'h'])

        def make(self, key):
            if key == 'h' and key not in list(cls.__iter__(self)) \
                    and 'h' in vals:
                self['h'] = made
            return cls.__getitem__(self, key)

        members = {'__iter__': enumerate_keys} if what == 'hidden' \
            else {'__getitem__': make}
        keys = ['a', 'b', 'c']
        keys.insert(pos, 'h')
        for k in keys:
            if k == 'h' and what == 'made':
                vals[k] = made
                continue
            m[k] = vals[k] = new()
        m.__class__ = type(cls.__name__, (cls,), members)
        x = new()
        k = target
        there = k in vals
        if way == 'set':
            m[k] = vals[k] = x
        elif way == 'update':
            m.update({k: x})
            vals[k] = x
        elif way == 'setdefault':
            want = vals.get(k, x)
            expect('setdefault(%r)' % k, outcome(m.setdefault, k, x),
                   ('is', want))
            vals[k] = want
        elif way == 'pop':
            expect('pop(%r)' % k, outcome(m.pop, k),
                   ('is', vals.pop(k)) if there else ('raise', KeyError))
        elif way == 'popd':
            expect('pop(%r, default)' % k, outcome(m.pop, k, x),
                   ('is', vals.pop(k) if there else x))
        elif way == 'del':
            if what == 'made' and k == 'h':
                m['h']
            expect('del %r' % k, outcome(m.__delitem__, k),
                   ('any',) if there else ('raise', KeyError))
            vals.pop(k, None)
        elif way == 'popitem':
            got, v = m.popitem()
            if got == 'h' or vals.pop(got) is not v:
                fail('popitem() returned %r', got)
        elif way == 'clear':
            m.clear()
            vals = dict((k, v) for k, v in vals.items()
                        if k == 'h' and k in vals
                        and m.get(k, None) is not None)
        for k in ('a', 'b', 'c', 'h', 'n'):
            if k in vals:
                expect('[%r]' % k, outcome(lambda: m[k]), ('is', vals[k]))
                expect('get(%r)' % k, outcome(m.get, k, x), ('is', vals[k]))
                expect('setdefault(%r)' % k, outcome(m.setdefault, k, new()),
                       ('is', vals[k]))
                expect('[%r]' % k, outcome(lambda: m[k]), ('is', vals[k]))
            else:
                expect('[%r]' % k, outcome(lambda: m[k]), ('raise', KeyError))
            if (k in m) is not (k in vals):
                fail('%r in mapping is %r', k, k in m)
            if hasattr(m, 'has_key') and bool(m.has_key(k)) is not (k in vals):
                fail('has_key(%r) is %r', k, m.has_key(k))
            if k not in vals:
                expect('get(%r)' % k, outcome(m.get, k, x), ('is', x))
        shown = [k for k in vals if what == 'made' or k != 'h']
        if sorted(m) != sorted(shown):
            fail('enumerates %r, expected %r', list(m), shown)
        for k in vals:
            v = vals[k]
            expect('pop(%r)' % k, outcome(m.pop, k), ('is', v))
        return what, way


READ = ['[]', 'get', 'in']
ENUM = READ + ['keys', 'iter', 'values', 'items', 'len']
ITER = ENUM + ['iterkeys', 'itervalues', 'iteritems']
# behaviors -> what they are documented to provide
PARTS = odict([
    ('ItemMapping', ['[]']),
    ('ReadMapping', READ),
    ('EnumerableMapping', ENUM),
    ('IterableMapping', ITER),
    ('ExtendedReadMapping', ITER + ['has_key']),
    ('WriteMapping', ['set', 'del']),
    ('Mapping', ENUM + ['set', 'del']),
    ('ExtendedWriteMapping', ['set', 'del', 'update']),
    ('ExtendedWriteMapping+ReadMapping',
     READ + ['set', 'del', 'update', 'setdefault', 'pop']),
    ('ExtendedWriteMapping+EnumerableMapping',
     ENUM + ['set', 'del', 'update', 'setdefault', 'pop', 'clear']),
    ('ExtendedWriteMapping+IterableMapping',
     ITER + ['set', 'del', 'update', 'setdefault', 'pop', 'clear', 'popitem']),
    ('ClonableMapping', ['copy']),
    ('FullMapping', ITER + ['has_key', 'set', 'del', 'update', 'setdefault',
                            'pop', 'clear', 'popitem', 'copy']),
])
PRIMITIVES = ('__getitem__', '__setitem__', '__delitem__', '__iter__')


class Bare(object):
    """Just what mappings are made of."""

    def __init__(self):
        self.pairs = []

    def __getitem__(self, key):
        for k, v in self.pairs:
            if k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, val):
        for i, (k, v) in enumerate(self.pairs):
            if k == key:
                self.pairs[i] = (k, val)
                return
        self.pairs.append((key, val))

    def __delitem__(self, key):
        for i, (k, v) in enumerate(self.pairs):
            if k == key:
                del self.pairs[i]
                return
        raise KeyError(key)

    def __iter__(self):
        return iter([k for k, v in self.pairs])


class Parts(Cases):
    """The parts of the mapping API used on their own: each does what it is
    there for, given the few methods it is documented to use.
    """
    name = 'parts'

    def cases(self):
        for part in PARTS:
            for base in ('bare', 'dict', 'odict'):
                if base != 'bare' and part == 'ClonableMapping':
                    continue
                for n in range(4):
                    for op in ['none'] + [
                            op for op in PARTS[part]
                            if op not in ITER + ['has_key']]:
                        for k in ('a', 'n', '', None):
                            yield (part, base, n, op, k)
            yield (part, 'nothing', 0, 'none', None)

    def run(self, case):
        part, base, n, op, k = case
        provides = PARTS[part]
        behaviors = [getattr(mapping, b) for b in part.split('+')]
        if base in ('dict', 'odict'):
            behaviors.append(DictStorage if base == 'dict' else OdictStorage)
        if base == 'nothing':
            return self.abstract(plumbing(*behaviors)(
                type('Abstract', (object,), {})), provides)
        # what is not used by the part is not there
        used = dict((p, Bare.__dict__[p]) for p in PRIMITIVES
                    if base == 'bare')
        used['__init__'] = Bare.__init__
        cls = plumbing(*behaviors)(type('Part', (object,), used))
        m, ref = cls(), Ref()
        for i, key in enumerate(['a', '', 'c'][:n]):
            val = [None, object(), 0][i]
            if base == 'bare':
                m.pairs.append((key, val))
            else:
                m.storage[key] = val
            ref.set(key, val)
        x = object()
        there = ref.get(k) is not MISSING
        if op == 'set':
            m[k] = x
            ref.set(k, x)
        elif op == 'del':
            expect('del', outcome(m.__delitem__, k),
                   ('any',) if there else ('raise', KeyError))
            ref.remove(k)
        elif op == 'update':
            expect('update', outcome(m.update, {k: x}, b=k), ('any',))
            m.update([('z', x)])
            ref.set(k, x)
            ref.set('b', k)
            ref.set('z', x)
            expect('update', outcome(m.update, {}, {}), ('raise', TypeError))
        elif op == 'setdefault':
            expect('setdefault', outcome(m.setdefault, k, x),
                   ('is', ref.get(k) if there else x))
            if not there:
                ref.set(k, x)
        elif op == 'pop':
            expect('pop', outcome(m.pop, k), ('is', ref.get(k)) if there
                   else ('raise', KeyError))
            ref.remove(k)
            expect('pop', outcome(m.pop, k, x), ('is', x))
            expect('pop', outcome(m.pop, k, None), ('is', None))
        elif op == 'clear':
            m.clear()
            ref = Ref()
        elif op == 'popitem':
            if not n:
                expect('popitem', outcome(m.popitem), ('raise', KeyError))
            else:
                got = m.popitem()
                if base != 'dict' and got[0] != ref.keys()[-1]:
                    fail('popitem gave %r', got)
                if ref.remove(got[0]) is not got[1]:
                    fail('popitem gave %r', got)
        elif op == 'copy':
            new = m.copy()
            if new is m or type(new) is not type(m):
                fail('copy is %r', new)
            self.reads(new, ref, provides, base)
        self.reads(m, ref, provides, base)
        return part

    def reads(self, m, ref, provides, base):
        keys = ref.keys()
        if base == 'bare':
            got = [k for k, _ in m.pairs]
            if got != keys or any(v is not ref.get(k) for k, v in m.pairs):
                fail('holds %r, expected %r', m.pairs, ref.items)
        else:
            got = list(m.storage)
            if (got != keys if base == 'odict' else set(got) != set(keys)) \
                    or any(m.storage[k] is not ref.get(k) for k in keys):
                fail('holds %r, expected %r', m.storage, ref.items)
        vals = [ref.get(k) for k in got]
        x = object()
        for k in ('a', '', 'c', 'n', None, 'b', 'z'):
            want = ref.get(k)
            there = want is not MISSING
            if '[]' in provides:
                expect('[%r]' % k, outcome(lambda: m[k]),
                       ('is', want) if there else ('raise', KeyError))
            if 'get' in provides:
                expect('get(%r)' % k, outcome(m.get, k),
                       ('is', want if there else None))
                expect('get(%r, default)' % k, outcome(m.get, k, x),
                       ('is', want if there else x))
            if 'in' in provides and (k in m) is not there:
                fail('%r in mapping is %r', k, k in m)
            if 'has_key' in provides and bool(m.has_key(k)) is not there:
                fail('has_key(%r) is %r', k, m.has_key(k))
        for name, want in (('keys', got), ('iterkeys', got), ('iter', got),
                           ('values', vals), ('itervalues', vals)):
            if name not in provides:
                continue
            res = list(m) if name == 'iter' else list(getattr(m, name)())
            if not same(res, want) and (res != want or name in (
                    'values', 'itervalues')):
                fail('%s gave %r, expected %r', name, res, want)
        for name in ('items', 'iteritems'):
            if name in provides:
                res = list(getattr(m, name)())
                if [k for k, _ in res] != got or not same(
                        [v for _, v in res], vals):
                    fail('%s gave %r', name, res)
        if 'len' in provides and len(m) != len(keys):
            fail('len is %r', len(m))

    def abstract(self, cls, provides):
        """What has to be implemented says so."""
        for name, fn in (('[]', lambda: cls()['a']),
                         ('iter', lambda: iter(cls())),
                         ('set', lambda: cls().__setitem__('a', 1)),
                         ('del', lambda: cls().__delitem__('a'))):
            if name in provides:
                expect('abstract ' + name, outcome(fn),
                       ('raise', NotImplementedError))
        return 'abstract'


ODD = ['', '__a', u'\xe4\u20ac', '0']
# keys which are no strings, for classes that do not interpret keys
NONSTR = [1, None, ('t', 2), 1.5]


def tasks(tier):
    thorough = tier == 'thorough'
    out = []
    for name, spec in MAPPINGS.items():
        node_child = spec[1] is not None
        out.append(MappingMachine(
            name, spec, ['a', 'b', 'c'], 5 if thorough else 3,
            nvals=4 if not node_child else 3))
        out.append(MappingMachine(
            name, spec, ODD, 4 if thorough else 2, nvals=7 if not node_child
            else 2, tag='-odd'))
        if name not in ('UnicodeNode',):
            out.append(MappingMachine(
                name, spec, NONSTR, 4 if thorough else 2,
                nvals=2, tag='-nonstr'))
    out.append(Corners())
    out.append(Refusing())
    out.append(Unlisted())
    out.append(Parts())
    out.append(Sizes([0, 1, 2, 5, 9, 33] + ([70, 100] if thorough else [])))
    return out
