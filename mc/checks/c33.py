"""C33: instance properties and the debug decorator."""
from mc import env  # noqa: F401
from mc import zoo
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import GetattrChildren
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.utils import UNSET
from node.utils import debug
from node.utils import instance_property
from plumber import Behavior
from plumber import default
from plumber import plumbing
import contextlib
import gc
import io
import itertools
import logging

TECHNIQUE = ('complete enumeration of access sequences over instances and '
             'properties, value kinds and raising patterns; evaluation counts '
             'and object identities of the real properties are compared with '
             'a model after every access')
LEVEL_NOTE = (
    'All sequences of up to 4 (6) accesses to two properties of two instances '
    'of 14 classes (overridden attribute lookup, slots, odd equality, node '
    'behaviors, subclasses) x 13 value kinds and 6 raising patterns, a third '
    'property using the others, instances dying and being recreated; 9 kinds '
    'of functions x 13 results or 8 exceptions x call forms below debug; '
    'iterators as arguments and results.')
ASSUMPTIONS = ['properties of one class and its bases have different names',
               'arguments and results of debugged functions can be printed',
               'classes do not define the attribute an instance property '
               'keeps its value in']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


class Weird(object):
    """Equal to nothing, false, not hashable."""

    def __eq__(self, other):
        return False

    __hash__ = None

    def __bool__(self):
        return False


VALUES = [None, 0, '', False, UNSET, [], {}, NotImplemented, AttributeError,
          KeyError('x'), Weird, lambda: 5, 'text']
SCRIPTS = [(), (Boom,), (AttributeError, KeyError), (Boom, Boom, ValueError),
           (KeyError, AttributeError, AttributeError), (Stop, Boom)]

CALLS = []


def evaluate(self, prop):
    """Scripted function of a property: raises, then gives a new value."""
    script = object.__getattribute__(self, 'script')
    calls = object.__getattribute__(self, 'calls')
    calls.append(prop)
    n = calls.count(prop)
    raising, kind = script[prop]
    if n <= len(raising):
        raise raising[n - 1]('evaluation %d of %s' % (n, prop))
    val = VALUES[kind]
    if val is Weird:
        return Weird()
    if isinstance(val, (list, dict)):
        return type(val)()
    return val


class Props(object):

    @instance_property
    def p(self):
        return evaluate(self, 'p')

    @instance_property
    def q(self):
        """Doc of q."""
        return evaluate(self, 'q')

    @instance_property
    def both(self):
        """Uses the others."""
        return (evaluate(self, 'both'), self.p, self.q)


class Plain(Props):
    pass


class Direct(object):
    p = Props.p
    q = Props.q
    both = Props.both


class Sub(Plain):
    """More properties."""

    @instance_property
    def r(self):
        return evaluate(self, 'p')


class Renamed(Plain):
    """Same properties under other names as well."""
    again = Plain.p


class Getattr(Props):
    """Attribute lookup of missing names raises."""

    def __getattr__(self, name):
        raise AttributeError(name)


class GetattrAll(Props):
    """Attribute lookup finds everything."""

    def __getattr__(self, name):
        return 'found %s' % name


class GetattrKey(Props):
    """Attribute lookup fails otherwise."""

    def __getattr__(self, name):
        raise KeyError(name)


class GetattrSelf(Props):
    """Attribute lookup uses the properties themselves."""

    def __getattr__(self, name):
        if name.startswith('__') or name in ('p', 'q', 'both'):
            raise AttributeError(name)
        return self.p


class Getattribute(Props):
    """Looks up everything itself."""

    def __getattribute__(self, name):
        if name.startswith('_') and not name.startswith('__'):
            raise AttributeError('private')
        return object.__getattribute__(self, name)


class Slots(object):
    __slots__ = ('script', 'calls', '_p', '_q', '_both')
    p = Props.p
    q = Props.q
    both = Props.both


class Odd(Props):
    """All equal, not hashable, false."""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class SameHash(Props):
    """All equal and of the same hash."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class PropsBehavior(Behavior):
    p = default(Props.p)
    q = default(Props.q)
    both = default(Props.both)


@plumbing(PropsBehavior, Adopt, DefaultInit, Nodify, OdictStorage)
class Plumbed(object):
    pass


@plumbing(PropsBehavior, GetattrChildren, Adopt, DefaultInit, Nodify,
          OdictStorage)
class PlumbedGetattr(object):
    pass


class OnNode(zoo.AttributedNode):
    p = Props.p
    q = Props.q
    both = Props.both


CLASSES = [Plain, Direct, Sub, Renamed, Getattr, GetattrAll, GetattrKey,
           GetattrSelf, Getattribute, Slots, Odd, SameHash, Plumbed,
           PlumbedGetattr, OnNode]


def new(cls, scripts):
    ob = cls()
    object.__setattr__(ob, 'script', scripts)
    object.__setattr__(ob, 'calls', [])
    return ob


class Model(object):
    """What one instance has to do."""

    def __init__(self, scripts):
        self.scripts = scripts
        self.calls = []
        self.kept = {}

    def wants(self, prop):
        """('raise', class) or ('value',): outcome of the next access."""
        if prop in self.kept:
            return ('value',)
        self.calls.append(prop)
        raising, kind = self.scripts[prop]
        n = self.calls.count(prop)
        if n <= len(raising):
            return ('raise', raising[n - 1])
        if prop == 'both':
            for other in ('p', 'q'):
                w = self.wants(other)
                if w[0] == 'raise':
                    return w
                self.kept.setdefault(other, Model)
        return ('value',)


def access(ob, m, prop, what):
    """Access a property and compare with the model."""
    fallback = isinstance(ob, (GetattrAll, GetattrKey))
    want = m.wants(prop)
    if want[0] == 'raise' and want[1] is AttributeError and (
            fallback or isinstance(ob, PlumbedGetattr)):
        # python itself asks __getattr__ then
        outcome(getattr, ob, prop)
    else:
        try:
            out = outcome(getattr, ob, prop)
        except Stop as e:
            out = ('raise', e)
        if want[0] == 'raise':
            expect(what, out, want)
        else:
            expect(what, out, ('any',))
            val = out[1]
            if prop in m.kept and m.kept[prop] is not Model:
                if val is not m.kept[prop]:
                    fail('%s: returned %r, the first access %r', what, val,
                         m.kept[prop])
            else:
                kind = m.scripts[prop][1]
                got = val[0] if prop == 'both' else val
                if isinstance(VALUES[kind], (list, dict)):
                    ok = got == VALUES[kind] and got is not VALUES[kind]
                elif VALUES[kind] is Weird:
                    ok = isinstance(got, Weird)
                else:
                    ok = got is VALUES[kind]
                if not ok:
                    fail('%s: returned %r, expected %r', what, val,
                         VALUES[kind])
                m.kept[prop] = val
    if list(object.__getattribute__(ob, 'calls')) != m.calls:
        fail('%s: evaluated %r, expected %r', what,
             object.__getattribute__(ob, 'calls'), m.calls)
    return want


class Accesses(Cases):

    def __init__(self, name, length, kinds, scripts, third=False):
        self.name = name
        self.length = length
        self.kinds = kinds
        self.scripts = scripts
        self.third = third

    def cases(self):
        targets = [(i, p) for i in range(2) for p in 'pq']
        if self.third:
            targets.append((0, 'both'))
        for c in range(len(CLASSES)):
            for kind in self.kinds:
                for script in self.scripts:
                    for seq in itertools.product(range(len(targets)),
                                                 repeat=self.length):
                        # the first access is to the first instance
                        if seq[0] in (0, 1, 4):
                            yield (c, kind, script, seq)

    def run(self, case):
        c, kind, script, seq = case
        cls = CLASSES[c]
        targets = [(i, p) for i in range(2) for p in ('p', 'q')]
        targets.append((0, 'both'))
        n, k = len(SCRIPTS), len(VALUES)
        obs, models = [], []
        for i in range(2):
            scripts = {
                'p': (SCRIPTS[(script + i) % n], (kind + 3 * i) % k),
                'q': (SCRIPTS[(script + 1) % n], (kind + 1 + i) % k),
                'both': (SCRIPTS[(script + 2) % n], (kind + 2) % k)}
            obs.append(new(cls, scripts))
            models.append(Model(scripts))
        for step, t in enumerate(seq):
            i, prop = targets[t]
            access(obs[i], models[i], prop, 'access %d: property %s of '
                   'instance %d of %s' % (step + 1, prop, i, cls.__name__))
        # in the end everything settles and stays
        for i in (0, 1):
            for prop in ('p', 'q'):
                for again in range(6):
                    if access(obs[i], models[i], prop, 'later access to %s of '
                              'instance %d of %s' % (prop, i, cls.__name__)
                              )[0] == 'value':
                        break
                access(obs[i], models[i], prop, 'last access to %s of '
                       'instance %d of %s' % (prop, i, cls.__name__))
        one, two = (m.kept for m in models)
        for prop in ('p', 'q'):
            a, b = one[prop], two[prop]
            if isinstance(a, (list, dict, Weird)) and a is b:
                fail('instances share %r', a)


class Lifetimes(Cases):
    """Instances dying and new ones in their place."""
    name = 'recreated instances'

    def cases(self):
        for c in range(len(CLASSES)):
            for kind in range(len(VALUES)):
                for order in itertools.product('pq', repeat=2):
                    yield (c, kind, order)

    def run(self, case):
        c, kind, order = case
        cls = CLASSES[c]
        for n in range(8):
            scripts = {'p': ((), (kind + n) % len(VALUES)),
                       'q': ((), (kind + n + 1) % len(VALUES)),
                       'both': ((), 0)}
            ob, m = new(cls, scripts), Model(scripts)
            for prop in order + order:
                access(ob, m, prop, 'instance %d of %s' % (n, cls.__name__))
            del ob, m
            if n == 4:
                gc.collect()


class Subclasses(Cases):
    """Properties of subclasses next to inherited ones, class access."""
    name = 'subclasses and class access'

    def cases(self):
        for kind in range(len(VALUES)):
            for seq in itertools.product(('p', 'q', 'r', 'again'), repeat=3):
                yield (kind, seq)

    def run(self, case):
        kind, seq = case

        class Derived(Sub):
            again = instance_property(lambda self: ('again', self.p))

            @instance_property
            def more(self):
                return [self.r]
        count = {}

        def counted(name, val):
            def fn(self):
                count[(id(self), name)] = count.get((id(self), name), 0) + 1
                return val
            fn.__name__ = name
            return instance_property(fn)
        Other = type('Other', (Derived,), {
            'x': counted('x', None), 'y': counted('y', VALUES[kind])})
        scripts = {'p': ((), kind), 'q': ((), kind)}
        obs = [new(Other, scripts) for _ in range(2)]
        first = {}
        for prop in seq * 2:
            for i, ob in enumerate(obs):
                val = getattr(ob, prop)
                if first.setdefault((i, prop), val) is not val:
                    fail('%s of instance %d changed', prop, i)
                if ob.x is not None or ob.y is not VALUES[kind]:
                    fail('values of added properties')
                if ob.more is not ob.more:
                    fail('value of last property')
        if any(n != 1 for n in count.values()) or len(count) != 4:
            fail('evaluated %r', list(count.values()))
        for cls in (Plain, Sub, Other):
            if not isinstance(cls.p, property):
                fail('%s.p is %r', cls.__name__, cls.p)
            if cls.q.__doc__ != 'Doc of q.':
                fail('documentation lost: %r', cls.q.__doc__)


class Named(Cases):
    """Properties whose names are much alike."""
    name = 'similar names'
    NAMES = ('x', 'x_', 'x__', 'xx', 'X', 'x1', 'x_x', 'xX', 'ab', 'a_b', 'aB',
             'b', 'value', 'values', 'value_', 'values_', 'a_value',
             'property', 'name', 'name_', u'\xe4', u'a\xe4', 'dict', 'dict__',
             'get_x', 'Named', 'named')

    def cases(self):
        for one, two in itertools.permutations(self.NAMES, 2):
            yield (one, two)

    def run(self, case):
        count = []

        def make(name, val):
            def fn(self):
                count.append(name)
                return val
            fn.__name__ = name
            return instance_property(fn)
        vals = [['one'], ['two']]
        one, two = case
        together = type('Named', (object,), {
            one: make(one, vals[0]), two: make(two, vals[1])})
        base = type('Base', (object,), {one: make(one, vals[0])})
        derived = type('Derived', (base,), {two: make(two, vals[1])})
        for cls in (together, derived):
            ob, del_ = cls(), cls()
            del count[:]
            for n in range(2):
                if getattr(ob, one) is not vals[0] or \
                        getattr(ob, two) is not vals[1]:
                    fail('%r and %r of one class: %r, %r', one, two,
                         getattr(ob, one), getattr(ob, two))
            if sorted(count) != sorted(case):
                fail('evaluated %r', count)
            if getattr(del_, two) is not vals[1] or len(count) != 3:
                fail('another instance did not evaluate %r', two)


class Setting(object):
    """Sets attributes in its own way."""
    way = None
    count = 0

    def make(self):
        object.__setattr__(self, 'count', self.count + 1)
        return ['made', self.count]

    def __setattr__(self, name, value):
        way = self.way
        if way == 'wrap':
            value = (value,)
        elif way == 'copy':
            value = list(value)
        elif way == 'elsewhere':
            self.__dict__.setdefault('_log', []).append(name)
        elif way == 'node':
            node = zoo.BaseNode(name=name)
            node.value = value
            value = node
        elif way == 'refuse' and self.refuse:
            object.__setattr__(self, 'refuse', self.refuse - 1)
            raise Boom(name)
        object.__setattr__(self, name, value)


class SettingSub(Setting):
    pass


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class SettingNode(Setting):
    pass


class Settings(Cases):
    """Instances which keep something else than what they are given, or
    refuse: every access has the same object, made once.
    """
    name = 'setting'

    def cases(self):
        for c in range(3):
            for way in ('none', 'wrap', 'copy', 'elsewhere', 'node',
                        'refuse1', 'refuse2'):
                for n in (1, 2, 3, 4):
                    for seq in itertools.product((0, 1), repeat=n):
                        for names in (('p',), ('p', 'r')):
                            yield (c, way, seq, names)

    def run(self, case):
        c, way, seq, names = case

        class Own((Setting, SettingSub, SettingNode)[c]):
            @instance_property
            def p(self):
                return self.make()

            @instance_property
            def r(self):
                return self.make()

        obs = [Own(), Own()]
        for ob in obs:
            object.__setattr__(ob, 'way', way.rstrip('12'))
            object.__setattr__(ob, 'refuse', int(way[-1])
                               if way.startswith('refuse') else 0)
        seen = {}
        made = [0, 0]
        left = [ob.refuse for ob in obs]
        for step, i in enumerate(seq * 2):
            ob = obs[i]
            name = names[step % len(names)]
            out = outcome(getattr, ob, name)
            if (i, name) not in seen:
                made[i] += 1
                if left[i]:
                    left[i] -= 1
                    expect('access when refused', out, ('raise', Boom))
                    continue
            expect('access to %s' % name, out, ('any',))
            if seen.setdefault((i, name), out[1]) is not out[1]:
                fail('access %d to %s of instance %d has %r, the first one '
                     'had %r', step, name, i, out[1], seen[(i, name)])
            val = out[1]
            if way == 'wrap':
                ok = type(val) is tuple and len(val) == 1
                val = val[0] if ok else val
            elif way == 'node':
                ok = isinstance(val, zoo.BaseNode)
                val = val.value if ok else val
            if type(val) is not list or val[0] != 'made':
                fail('value of %s is %r', name, val)
            if [o.count for o in obs] != made:
                fail('evaluated %r times, expected %r',
                     [o.count for o in obs], made)
        return way


# ---------------------------------------------------------------------------
# debug
# ---------------------------------------------------------------------------

ARGS = [((), {}), ((1,), {}), ((None, '{}'), {}), (('%s', u'\u20ac'), {}),
        ((), {'a': 1}), ((0,), {'b': '{0}'}), (([], {}), {'c': None}),
        ((1, 2, 3), {'a': UNSET, 'd': ()})]
RAISED = [ValueError, AttributeError, KeyError, StopIteration, Boom, Stop,
          TypeError, UnicodeDecodeError]


class Debug(Cases):
    """Functions of every kind below debug."""
    name = 'debug'

    def cases(self):
        for kind in range(8):
            for args in range(len(ARGS)):
                for level in (logging.DEBUG, logging.INFO, logging.CRITICAL):
                    for val in range(len(VALUES)):
                        yield (kind, args, level, 'return', val)
                    for exc in range(len(RAISED)):
                        yield (kind, args, level, 'raise', exc)

    def run(self, case):
        kind, nargs, level, way, which = case
        args, kw = ARGS[nargs]
        seen = []
        if way == 'raise':
            cls = RAISED[which]
            exc = UnicodeDecodeError('utf-8', b'x', 0, 1, 'no') \
                if cls is UnicodeDecodeError else cls('original')
        val = VALUES[which % len(VALUES)]

        def body(args, kw):
            seen.append((args, kw))
            if way == 'raise':
                raise exc
            return val

        def function(*args, **kw):
            """Documentation."""
            return body(args, kw)
        me = None
        if kind == 0:
            fn = debug(function)
        elif kind == 1:
            class Klass(object):
                @debug
                def method(self, *args, **kw):
                    """Documentation."""
                    if self is not me:
                        fail('called with self %r', self)
                    return body(args, kw)
            me = Klass()
            fn = me.method
        elif kind == 2:
            class Klass(object):
                @staticmethod
                @debug
                def method(*args, **kw):
                    """Documentation."""
                    return body(args, kw)
            fn = Klass.method
        elif kind == 3:
            class Klass(object):
                @classmethod
                @debug
                def method(cls, *args, **kw):
                    """Documentation."""
                    if cls is not Klass:
                        fail('called with class %r', cls)
                    return body(args, kw)
            fn = Klass.method
        elif kind == 4:
            fn = debug(debug(function))
        elif kind == 5:
            fn = debug(lambda *args, **kw: body(args, kw))
        elif kind == 6:
            class Klass(zoo.BaseNode):
                @debug
                def method(self, *args, **kw):
                    """Documentation."""
                    return body(args, kw)
            fn = Klass(name='x').method
        else:
            def gen(*args, **kw):
                """Documentation."""
                return body(args, kw)
            gen.__name__ = '{}%s'
            fn = debug(gen)
        log = logging.getLogger('node')
        old = log.level, log.propagate, list(log.handlers)
        handler = logging.NullHandler()
        log.setLevel(level)
        log.propagate = False
        log.addHandler(handler)
        try:
            for n in range(2):
                try:
                    out = outcome(fn, *args, **kw)
                except Stop as e:
                    out = ('raise', e)
                if len(seen) != n + 1:
                    fail('called %d times', len(seen))
                if len(seen[n][0]) != len(args) or any(
                        a is not b for a, b in zip(seen[n][0], args)) or \
                        seen[n][1] != kw:
                    fail('called with %r, expected %r', seen[n], (args, kw))
                if way == 'return':
                    expect('debugged function', out, ('is', val))
                elif out[0] != 'raise' or out[1] is not exc:
                    fail('debugged function: %r, expected the exception '
                         'raised, %r', out, exc)
        finally:
            log.removeHandler(handler)
            log.setLevel(old[0])
            log.propagate = old[1]
        if kind != 5 and fn.__doc__ != 'Documentation.':
            fail('documentation lost: %r', fn.__doc__)


class Keywords(Cases):
    """Keyword arguments reach a debugged function in the order given."""
    name = 'debug of keywords'
    NAMES = ('b', 'a', 'self', 'args', 'kws', 'func', 'kw', u'\xe4')

    def cases(self):
        for n in range(5):
            for names in itertools.permutations(self.NAMES, n):
                for args in ((), (1,), (None, [])):
                    yield (names, args)

    def run(self, case):
        names, args = case
        got = []

        def plain(*a, **k):
            got.append((a, list(k.items())))
            return got[-1]
        vals = [[name] for name in names]
        log = logging.getLogger('node')
        old = log.level, log.propagate
        log.setLevel(logging.DEBUG)
        log.propagate = False
        handler = logging.NullHandler()
        log.addHandler(handler)
        try:
            res = debug(plain)(*args, **dict(zip(names, vals)))
        finally:
            log.removeHandler(handler)
            log.setLevel(old[0])
            log.propagate = old[1]
        if len(got) != 1 or res is not got[0]:
            fail('called %d times, result %r', len(got), res)
        a, k = res
        if len(a) != len(args) or any(x is not y for x, y in zip(a, args)):
            fail('arguments %r became %r', args, a)
        if [n for n, v in k] != list(names) or any(
                x is not y for (n, x), y in zip(k, vals)):
            fail('keywords %r became %r', names, k)


class Iterators(Cases):
    """Arguments and results which can be read once only."""
    name = 'debug of iterators'

    @staticmethod
    def generator():
        for i in range(3):
            yield i

    class Lazy(object):
        """Notices what is asked of it."""

        def __init__(self):
            self.asked = []

        def __iter__(self):
            self.asked.append('iter')
            return iter(range(3))

        def __len__(self):
            self.asked.append('len')
            return 3

        def __bool__(self):
            self.asked.append('bool')
            return True

        def __call__(self):
            self.asked.append('call')

        def __eq__(self, other):
            self.asked.append('eq')
            return self is other

        def __hash__(self):
            self.asked.append('hash')
            return 1

        def __getitem__(self, key):
            self.asked.append('getitem')
            raise IndexError(key)

    MAKE = [lambda: iter([0, 1, 2]), lambda: Iterators.generator(),
            lambda: map(int, '012'), lambda: reversed([2, 1, 0]),
            lambda: zip(range(3)), lambda: iter({0: 0, 1: 1, 2: 2}),
            lambda: (i for i in range(3)), lambda: itertools.count(),
            lambda: io.StringIO(u'0\n1\n2'), lambda: Iterators.Lazy(),
            lambda: contextlib.closing(io.BytesIO(b'x'))]

    def cases(self):
        for result in range(len(self.MAKE)):
            for arg in range(len(self.MAKE)):
                for way in ('positional', 'keyword', 'method', 'generator'):
                    for level in (logging.DEBUG, logging.CRITICAL):
                        yield (result, arg, way, level)

    @staticmethod
    def content(ob):
        if isinstance(ob, Iterators.Lazy):
            return list(ob.asked)
        if isinstance(ob, contextlib.closing):
            return ob.thing.closed, ob.thing.tell()
        return list(itertools.islice(ob, 5))

    def run(self, case):
        result, arg, way, level = case
        value, given = self.MAKE[result](), self.MAKE[arg]()
        want = self.content(self.MAKE[result]())
        wantarg = self.content(self.MAKE[arg]())
        started = []
        if way == 'generator':
            @debug
            def fn(x):
                started.append(x)
                yield x
                yield value
        elif way == 'method':
            class Klass(object):
                @debug
                def method(self, x):
                    started.append(x)
                    return value
            fn = Klass().method
        else:
            @debug
            def fn(x):
                started.append(x)
                return value
        log = logging.getLogger('node')
        old = log.level, log.propagate
        handler = logging.NullHandler()
        log.setLevel(level)
        log.propagate = False
        log.addHandler(handler)
        try:
            out = fn(x=given) if way == 'keyword' else fn(given)
            if way == 'generator':
                if started:
                    fail('the generator was started')
                got = list(out)
                if len(got) != 2 or got[0] is not given or \
                        got[1] is not value:
                    fail('the generator yields %r', got)
            elif out is not value:
                fail('returned %r', out)
        finally:
            log.removeHandler(handler)
            log.setLevel(old[0])
            log.propagate = old[1]
        if len(started) != 1 or started[0] is not given:
            fail('called with %r', started)
        if self.content(given) != wantarg:
            fail('the argument was consumed')
        if self.content(value) != want:
            fail('the result was consumed')


def tasks(tier):
    quick = tier == 'quick'
    kinds = range(len(VALUES))
    return [
        Accesses('accesses, all values', 3 if quick else 4, kinds,
                 [0, 1, 2]),
        Accesses('accesses, all raising patterns', 4 if quick else 6, [0, 4],
                 range(6)),
        Accesses('nested properties', 4 if quick else 5, [0, 5], [0, 1, 3],
                 third=True),
        Lifetimes(), Subclasses(), Named(), Settings(), Debug(), Keywords(),
        Iterators(),
    ]
