"""C20: event attributes."""
import copy
import functools
import itertools
import pickle
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.base import AttributedNode
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.events import EventAttribute
from node.events import EventDispatcher
from node.events import Events
from node.events import suppress_events
from node.utils import UNSET
from odict import odict
from plumber import Behavior
from plumber import default
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over histories of setting, deleting and '
             'reading event attributes of two instances, with subscribers which '
             'set other attributes or raise while notified, on real classes '
             'against a model of values and bindings')
LEVEL_NOTE = (
    'Every history up to the depth over 4 attributes (defaults given, UNSET '
    'and None; always dispatching; stored in dict, attrs and an own storage), '
    '7 values and 6 re-entrant subscribers on 6 classes. Trusts the model.')
ASSUMPTIONS = ['single thread', 'event attributes are declared on event '
               'dispatching classes or behaviors', 'the remaining subscribers '
               'after one raised are left open']

VALUES = [0, 1, None, UNSET, '', (), 1.0, 'x']
LOG = []


def decorated(tag):
    def on_change(self, value):
        LOG.append(('deco', tag, self, value))
        hook(self, tag)
    return on_change


HOOKS = {}


def hook(inst, tag):
    todo = HOOKS.pop(tag, None)
    if todo:
        todo(inst)


class Boom(Exception):
    pass


class Plain(EventDispatcher):
    x = EventAttribute(0)
    y = EventAttribute()
    z = EventAttribute(None, always_dispatch=True)
    on_x = x.subscriber(decorated('x'))
    on_x2 = x.subscriber(decorated('x2'))
    on_z = z.subscriber(decorated('z'))


@plumbing(Events)
class OnNode(AttributedNode):
    x = EventAttribute(0, storage='attrs')
    y = EventAttribute(storage='attrs')
    z = EventAttribute(None, storage='attrs', always_dispatch=True)
    on_x = x.subscriber(decorated('x'))
    on_x2 = x.subscriber(decorated('x2'))
    on_z = z.subscriber(decorated('z'))


class Storing(dict):
    """Refuses a value."""

    def __setitem__(self, key, value):
        if value == 'refused':
            raise Boom(value)
        dict.__setitem__(self, key, value)


@plumbing(Events, DefaultInit, Nodify, OdictStorage)
class OwnStorage(object):
    x = EventAttribute(0, storage='values')
    y = EventAttribute(UNSET, 'other')
    z = EventAttribute(None, 'values', True)
    on_x = x.subscriber(decorated('x'))
    on_x2 = x.subscriber(decorated('x2'))
    on_z = z.subscriber(decorated('z'))

    @property
    def values(self):
        return self.__dict__.setdefault('_values', Storing())

    @property
    def other(self):
        return self.__dict__.setdefault('_other', {})


class Declaring(Behavior):
    x = EventAttribute(0)
    y = EventAttribute()
    z = EventAttribute(None, always_dispatch=True)
    x.subscriber(decorated('x'))
    x.subscriber(decorated('x2'))
    z.subscriber(decorated('z'))
    x = default(x)
    y = default(y)
    z = default(z)


@plumbing(Declaring)
class FromBehavior(EventDispatcher):
    pass


class Sub(Plain):
    """Inherits the attributes."""
    own = EventAttribute(0)


class Redefining(Plain):
    """Own attribute of the same name."""
    x = EventAttribute(0)
    on_x = x.subscriber(decorated('x'))
    on_x2 = x.subscriber(decorated('x2'))


class Store(object):

    def __init__(self, get):
        self.get = get


CLASSES = {
    'plain': (Plain, lambda i, n: i.__dict__),
    'node': (lambda: OnNode(name='n'), lambda i, n: i.attrs),
    'own': (OwnStorage, lambda i, n: i.other if n == 'y'
            else type(i).values.fget(i)),
    'behavior': (FromBehavior, lambda i, n: i.__dict__),
    'sub': (Sub, lambda i, n: i.__dict__),
    'redefining': (Redefining, lambda i, n: i.__dict__),
}
DEFAULTS = {'x': 0, 'y': UNSET, 'z': None}
DECO = {'x': ['x', 'x2'], 'y': [], 'z': ['z']}
MISS = object()

# what a subscriber does when notified: (what triggers it, actions)
REACT = {
    'none': None,
    'sety': ('x', [('set', 'y', 'r')]),
    'setx': ('x', [('set', 'x', 'r')]),
    'setz': ('x', [('set', 'z', 'r'), ('set', 'z', 'r')]),
    'chain': ('z', [('set', 'x', 'r'), ('set', 'y', 'r')]),
    'delx': ('x', [('del', 'x')]),
    'bindy': ('x', [('bind', 'y'), ('set', 'y', 'r')]),
    'unbind': ('x', [('unbind', 'x')]),
    'other': ('x', [('other', 'x', 'r')]),
}


class Attributes(Machine):

    def __init__(self, cls, attrs, values, react, depth, where='deco', tag=''):
        self.cls = cls
        self.factory, self.store = CLASSES[cls]
        self.attrs = attrs
        self.values = values
        self.react = react
        self.where = where
        self.depth = depth
        self.name = 'attributes-%s-%s%s%s' % (cls, react, where if
                                              react != 'none' else '', tag)

    def fresh(self):
        HOOKS.clear()
        del LOG[:]
        ms = [self.factory(), self.factory()]
        s = State(ms=ms, vals=[{}, {}], bound=[set(), set()], subs={})
        for n in ('x', 'y', 'z'):
            s.subs[n] = self.subscriber(n)
        return s

    def subscriber(self, n):
        def bound(*args, **kw):
            if len(args) != 1 or kw:
                fail('bound subscriber called with %r %r', args, kw)
            LOG.append(('bound', n, args[0]))
            hook(None, 'bound ' + n)
        return bound

    def ops(self, s):
        for i in (0, 1):
            for n in self.attrs if i == 0 else self.attrs[:1]:
                for v in range(len(self.values)):
                    if i and v > 1:
                        break
                    yield ('set', i, n, v)
                yield ('del', i, n)
                if i == 0:
                    yield ('bind', i, n)
                    yield ('unbind', i, n)
                    yield ('quiet', i, n, 1)
                    yield ('raise', i, n, 1)
                if self.cls == 'own' and n != 'y':
                    yield ('refuse', i, n)
            yield ('bind', i, self.attrs[0])

    # ------------------------------------------------------------------ model
    def calls(self, s, i, n, v):
        """Expected notifications of attribute n of instance i."""
        out = [('deco', t, s.ms[i], v) for t in DECO[n]]
        if n in s.bound[i]:
            out.append(('bound', n, v))
        return out

    def m_set(self, s, i, n, v, want, react):
        old = s.vals[i].get(n, DEFAULTS[n])
        s.vals[i][n] = v
        if n == 'z' or v != old:
            self.m_notify(s, i, n, v, want, react)

    def m_notify(self, s, i, n, v, want, react):
        # bindings at the time of the dispatch count
        calls = self.calls(s, i, n, v)
        for c in calls:
            want.append(c)
            tag = c[1] if c[0] == 'deco' else 'bound ' + c[1]
            if react and react.get(tag):
                todo = react.pop(tag)
                for a in todo:
                    if a[0] == 'set':
                        self.m_set(s, i, a[1], a[2], want, react)
                    elif a[0] == 'other':
                        self.m_set(s, 1 - i, a[1], a[2], want, react)
                    elif a[0] == 'del':
                        self.m_del(s, i, a[1], want, react)
                    elif a[0] == 'bind':
                        s.bound[i].add(a[1])
                    elif a[0] == 'unbind':
                        s.bound[i].discard(a[1])

    def m_del(self, s, i, n, want, react):
        if n not in s.vals[i]:
            return False
        del s.vals[i][n]
        self.m_notify(s, i, n, UNSET, want, react)
        return True

    # ------------------------------------------------------------------ real
    def arm(self, s, i):
        HOOKS.clear()
        spec = REACT[self.react]
        if spec is None:
            return None
        n, actions = spec
        tag = n if self.where == 'deco' else 'bound ' + n

        def act(_):
            m = s.ms[i]
            for a in actions:
                if a[0] == 'set':
                    setattr(m, a[1], a[2])
                elif a[0] == 'other':
                    setattr(s.ms[1 - i], a[1], a[2])
                elif a[0] == 'del':
                    try:
                        delattr(m, a[1])
                    except Boom:
                        raise
                    except Exception:
                        pass
                elif a[0] == 'bind':
                    m.bind(**{a[1]: s.subs[a[1]]})
                elif a[0] == 'unbind':
                    m.unbind(event=a[1], subscriber=s.subs[a[1]])
        HOOKS[tag] = act
        return {tag: actions}

    def compare(self, want, what):
        got = list(LOG)
        del LOG[:]
        HOOKS.clear()

        def show(x):
            return [c[:2] + (c[-1],) for c in x]
        rest = list(got)
        for w in want:
            for k, g in enumerate(rest):
                if g[:2] == w[:2] and same(g[-1], w[-1]) and (
                        g[0] != 'deco' or g[2] is w[2]):
                    del rest[k]
                    break
            else:
                fail('%s notified %r, expected %r', what, show(got),
                     show(want))
        if rest:
            fail('%s notified %r, expected %r', what, show(got), show(want))
        deco = [g[1] for g in got if g[0] == 'deco']
        if len(got) == 3 and 'x' in deco and deco.index('x') > (
                deco.index('x2') if 'x2' in deco else 9):
            fail('%s notified decorated subscribers out of order', what)

    def apply(self, s, op):
        kind, i, n = op[:3]
        m = s.ms[i]
        del LOG[:]
        if kind == 'set':
            v = self.values[op[3]]
            want = []
            react = self.arm(s, i)
            expect('set', outcome(setattr, m, n, v), ('any',))
            self.m_set(s, i, n, v, want, react)
            self.compare(want, 'setting %s to %r' % (n, v))
            return '%d calls' % len(want)
        if kind == 'del':
            want = []
            react = self.arm(s, i)
            out = outcome(delattr, m, n)
            if not self.m_del(s, i, n, want, react):
                if out[0] == 'ok':
                    fail('deleting unset %s succeeded', n)
                self.compare([], 'deleting unset %s' % n)
                return 'unset'
            expect('del', out, ('any',))
            self.compare(want, 'deleting %s' % n)
            return
        if kind == 'bind':
            m.bind(**{n: s.subs[n]})
            s.bound[i].add(n)
            return
        if kind == 'unbind':
            m.unbind(event=n)
            s.bound[i].discard(n)
            return
        if kind == 'quiet':
            v = self.values[op[3]]
            with suppress_events():
                setattr(m, n, v)
            s.vals[i][n] = v
            self.compare([], 'setting suppressed %s' % n)
            return
        if kind == 'refuse':
            expect('refused value', outcome(setattr, m, n, 'refused'),
                   ('raise', Boom))
            self.compare([], 'refused value')
            return
        if kind == 'raise':
            # a subscriber fails; what follows is normal again
            v = self.values[op[3]]

            def boom(_):
                raise Boom()
            tags = [t for t in DECO[n]] or (
                ['bound ' + n] if n in s.bound[i] else [])
            for t in tags[:1]:
                HOOKS[t] = boom
            out = outcome(setattr, m, n, v)
            HOOKS.clear()
            old = s.vals[i].get(n, DEFAULTS[n])
            s.vals[i][n] = v
            notified = tags and (n == 'z' or v != old)
            expect('set with failing subscriber', out,
                   ('raise', Boom) if notified else ('any',))
            if bool(LOG) != bool(notified):
                fail('failing subscriber: notified %r', LOG)
            del LOG[:]
            return

    def check(self, s):
        for i, m in enumerate(s.ms):
            for n in ('x', 'y', 'z'):
                want = s.vals[i].get(n, DEFAULTS[n])
                got = getattr(m, n)
                if not same(got, want):
                    fail('instance %d %s reads %r, expected %r', i, n, got,
                         want)
                store = self.store(m, n)
                if (n in store) != (n in s.vals[i]) or (
                        n in store and not same(store[n], want)):
                    fail('instance %d stores %r', i, dict(store.items()))
                if not same(getattr(type(m), n), DEFAULTS[n]):
                    fail('class attribute %s reads %r', n,
                         getattr(type(m), n))
        if LOG:
            fail('reading notified %r', LOG)
        # everything is still notified exactly once; another event of the same
        # instance does not reach decorated subscribers
        for i, m in enumerate(s.ms):
            m.register_event('unrelated')
            m.dispatch('unrelated', 1)
            self.compare([], 'unrelated event')
            for n in ('x', 'y', 'z'):
                for v in ('fresh', 'fresh'):
                    want = []
                    setattr(m, n, v)
                    self.m_set(s, i, n, v, want, None)
                    self.compare(want, 'finally setting %s' % n)
                want = []
                delattr(m, n)
                self.m_del(s, i, n, want, None)
                self.compare(want, 'finally deleting %s' % n)
                if not same(getattr(m, n), DEFAULTS[n]):
                    fail('deleted %s reads %r', n, getattr(m, n))


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


class Defaults(Cases):
    """Every default x value x flag x storage."""
    name = 'defaults'

    def cases(self):
        for d in range(len(VALUES) + 1):
            for v in range(len(VALUES)):
                for always in (False, True):
                    for storage in ('__dict__', 'own'):
                        yield (d, v, always, storage)

    def run(self, case):
        d, v, always, storage = case
        args = [] if d == len(VALUES) else [VALUES[d]]
        dflt = UNSET if d == len(VALUES) else VALUES[d]
        val = VALUES[v]
        attr = EventAttribute(*args, storage=storage, always_dispatch=always)
        calls = []

        def subscriber(self, value):
            calls.append((self, value))
        # may be used to decorate methods, which are called by others as well
        decorated = attr.subscriber(subscriber)
        if decorated is not subscriber:
            fail('decorating gave %r', decorated)
        cls = type(EventDispatcher)('D', (EventDispatcher,), {
            'attr': attr, 'own': property(
                lambda self: self.__dict__.setdefault('_own', {}))})
        one, two = cls(), cls()
        bound = []
        one.bind(attr=bound.append)
        cur = dflt
        for n in range(3):
            if not same(one.attr, cur) or not same(two.attr, dflt):
                fail('reads %r and %r, expected %r and %r', one.attr,
                     two.attr, cur, dflt)
            new = val if n != 1 else 'other'
            one.attr = new
            want = [new] if always or new != cur else []
            if [x for _, x in calls] != want or bound != want or any(
                    x is not one for x, _ in calls):
                fail('set %r after %r notified %r and %r, expected %r', new,
                     cur, calls, bound, want)
            del calls[:], bound[:]
            cur = new
        del one.attr
        if len(calls) != 1 or calls[0][1] is not UNSET or len(bound) != 1 \
                or bound[0] is not UNSET:
            fail('deleting notified %r and %r', calls, bound)
        if not same(one.attr, dflt):
            fail('deleted reads %r', one.attr)


class Mutable(Cases):
    """Values which can be changed in place, as defaults and as values."""
    name = 'mutable'
    MAKE = {'list': list, 'dict': dict, 'set': set,
            'full': lambda: [1, 2], 'odict': odict,
            'own': lambda: type('Own', (), {'__hash__': None})()}

    def cases(self):
        for kind in sorted(self.MAKE):
            for cls in ('dict', 'own', 'attrs'):
                for always in (False, True):
                    for first in ('read', 'set', 'set default', 'delete'):
                        for sub in (False, True):
                            yield (kind, cls, always, first, sub)

    def run(self, case):
        kind, where, always, first, sub = case
        default = self.MAKE[kind]()
        storage = {'dict': '__dict__', 'own': 'own', 'attrs': 'attrs'}[where]
        attr = EventAttribute(default, storage=storage,
                              always_dispatch=always)
        calls = []
        attr.subscriber(lambda self, value: calls.append((self, value)))
        base = OnNode if where == 'attrs' else EventDispatcher
        cls = type(base)('D', (base,), {'attr': attr, 'own': property(
            lambda self: self.__dict__.setdefault('_own', {}))})
        if sub:
            cls = type(base)('E', (cls,), {})
        one, two = cls(), cls()
        bound = []
        one.bind(attr=lambda *value: bound.append(value))

        def store(inst):
            return dict(getattr(inst, storage))

        def notified(what, *want):
            got, got_bound = list(calls), list(bound)
            del calls[:], bound[:]
            if len(got) != len(want) or len(got_bound) != len(want) or any(
                    g[0] is not one or g[1] is not w
                    for g, w in zip(got, want)) or any(
                        len(g) != 1 or g[0] is not w
                        for g, w in zip(got_bound, want)):
                fail('%s notified %r and %r, expected %r', what, got,
                     got_bound, want)
        if cls.attr is not default:
            fail('the class reads %r', cls.attr)
        for inst in (one, two):
            was = store(inst)
            for _ in range(2):
                if inst.attr is not default:
                    fail('reads %r which is not the default', inst.attr)
            if store(inst) != was:
                fail('reading stored %r', store(inst))
        notified('reading')
        if first == 'delete':
            out = outcome(lambda: delattr(one, 'attr'))
            if out[0] != 'raise':
                fail('an unset attribute was deleted')
            notified('deleting the unset one')
        if first == 'set default':
            # the value is the default itself
            one.attr = default
            notified('setting the default', *([default] if always else []))
        value, same = self.MAKE[kind](), self.MAKE[kind]()
        eq = value == default
        was_eq = one.attr == value
        one.attr = value
        changed = always or not was_eq
        notified('setting', *([value] if changed else []))
        if one.attr is not value:
            # an equal value need not be stored
            if not (eq and one.attr is default):
                fail('reads %r after setting %r', one.attr, value)
        if two.attr is not default or cls.attr is not default:
            fail('another instance changed to %r', two.attr)
        other = object()
        one.attr = other
        notified('setting another', other)
        one.attr = value
        notified('setting', value)
        if one.attr is not value:
            fail('reads %r after setting %r', one.attr, value)
        one.attr = same
        notified('setting an equal value', *(
            [same] if always or value != same else []))
        if two.attr is not default:
            fail('another instance changed to %r', two.attr)
        del one.attr
        notified('deleting', UNSET)
        if one.attr is not default or two.attr is not default:
            fail('deleted reads %r', one.attr)


class Copied(Cases):
    """Copies of objects, whatever happened to these before, have values of
    their own."""
    name = 'copies'
    WAYS = ('copy.copy', 'copy.deepcopy', 'copy', 'deepcopy', 'pickle')
    ACTS = [('set', 'x', 1), ('set', 'x', 0), ('del', 'x'), ('set', 'z', 5),
            ('del', 'z'), ('set', 'y', 2), ('read',)]

    def __init__(self, length):
        self.length = length

    def cases(self):
        for cls in sorted(CLASSES):
            for way in self.WAYS:
                if way in ('copy', 'deepcopy') and cls not in ('node', 'own') \
                        or way == 'copy' and cls == 'node' \
                        or way.endswith('copy.copy') and cls in (
                            'node', 'own') or way == 'copy' and cls == 'own':
                    # containers of attributes are shared by shallow copies
                    continue
                for n in range(self.length + 1):
                    for before in itertools.product(range(len(self.ACTS)),
                                                    repeat=n):
                        for after in itertools.product(range(len(self.ACTS)),
                                                       repeat=2):
                            yield (cls, way, before, after)

    def act(self, obs, model, i, act):
        ob, vals = obs[i], model[i]
        del LOG[:]
        if act[0] == 'read':
            return
        name = act[1]
        old = vals.get(name, DEFAULTS[name])
        if act[0] == 'set':
            setattr(ob, name, act[2])
            vals[name] = act[2]
            changed = name == 'z' or act[2] != old
            new = act[2]
        else:
            out = outcome(delattr, ob, name)
            if name not in vals:
                if out[0] != 'raise':
                    fail('deleting unset %s: %r', name, out)
                changed = False
            else:
                expect('deleting %s' % name, out, ('any',))
                del vals[name]
                changed = True
            new = UNSET
        want = [('deco', tag, ob, new) for tag in DECO[name]] if changed \
            else []
        if len(want) != len(LOG) or any(
                g[1] != w[1] or g[2] is not w[2] or g[3] != w[3]
                for g, w in zip(LOG, want)):
            fail('%r of object %d told %r, expected %r', act, i, LOG, want)

    def compare(self, obs, model, what):
        for i, (ob, vals) in enumerate(zip(obs, model)):
            for name in ('x', 'y', 'z'):
                want = vals.get(name, DEFAULTS[name])
                got = getattr(ob, name)
                if got is not want and got != want:
                    fail('%s: %s of %s is %r, expected %r', what, name,
                         'the copy' if i else 'the original', got, want)

    def run(self, case):
        name, way, before, after = case
        ob = CLASSES[name][0]()
        obs, model = [ob], [{}]
        for n in before:
            self.act(obs, model, 0, self.ACTS[n])
        obs.append({
            'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy,
            'copy': lambda o: o.copy(), 'deepcopy': lambda o: o.deepcopy(),
            'pickle': lambda o: pickle.loads(pickle.dumps(o)),
        }[way](ob))
        model.append(dict(model[0]))
        self.compare(obs, model, 'copied')
        for i, n in zip((1, 0), after):
            self.act(obs, model, i, self.ACTS[n])
            self.compare(obs, model, '%r on %s' % (
                self.ACTS[n], 'the copy' if i else 'the original'))
        return way


class Overridden(Cases):
    """Dispatchers which do something else first, afterwards, or instead:
    decorated subscribers get what happens to their attribute, nothing else.
    """
    name = 'overridden'
    ACTS = ('note', 'note other', 'x other', 'set z', 'set z other',
            'set x other', 'fail')

    def __init__(self, length):
        self.length = length

    def cases(self):
        for where in ('dict', 'attrs'):
            for op in ('set', 'same', 'delete', 'dispatch'):
                for main in (True, False):
                    for n in range(self.length + 1):
                        for acts in itertools.product(self.ACTS, repeat=n):
                            for cut in range(n + 1):
                                if not main and cut < n:
                                    continue
                                yield (where, op, main, acts, cut)

    def run(self, case):
        where, op, main, acts, cut = case
        storage = {'dict': '__dict__', 'attrs': 'attrs'}[where]
        base = OnNode if where == 'attrs' else EventDispatcher
        trace = []
        x = EventAttribute(0, storage=storage)
        z = EventAttribute(0, storage=storage)
        x.subscriber(lambda self, *v: trace.append(
            ('x', names[id(self)]) + v))
        z.subscriber(lambda self, *v: trace.append(
            ('z', names[id(self)]) + v))
        state = {'on': True}

        def dispatch(self, event, *args, **kw):
            if not state['on'] or self is not one or event != 'x':
                return super(cls, self).dispatch(event, *args, **kw)
            state['on'] = False
            try:
                for act in acts[:cut]:
                    perform(act)
                if main:
                    super(cls, self).dispatch(event, *args, **kw)
                for act in acts[cut:]:
                    perform(act)
            finally:
                state['on'] = True

        first = type(base)('D', (base,), {
            'x': x, 'z': z, '__events__': ['note']})
        cls = type(base)('Overriding', (first,), {'dispatch': dispatch})
        one, two = cls(), cls()
        names = {id(one): 'one', id(two): 'two'}
        for ob in (one, two):
            for event in ('x', 'z', 'note'):
                ob.bind(**{event: functools.partial(
                    lambda e, n, *v: trace.append(('bound ' + e, n) + v),
                    event, names[id(ob)])})
        count = [0]

        def value():
            count[0] += 1
            return 'v%d' % count[0]

        def perform(act):
            v = value()
            if act == 'note':
                one.dispatch('note', v)
            elif act == 'note other':
                two.dispatch('note', v)
            elif act == 'x other':
                two.dispatch('x', v)
            elif act == 'set z':
                one.z = v
            elif act == 'set z other':
                two.z = v
            elif act == 'set x other':
                two.x = v
            else:
                raise Boom(act)

        def expected(event, val, decorated):
            """What is to be traced, and whether the operation fails."""
            out = []
            n = count[0]
            for i, act in enumerate(acts):
                if i == cut and main:
                    out += here(event, val, decorated)
                n += 1
                v = 'v%d' % n
                if act == 'note':
                    out.append(('bound note', 'one', v))
                elif act == 'note other':
                    out.append(('bound note', 'two', v))
                elif act == 'x other':
                    out.append(('bound x', 'two', v))
                elif act == 'set z':
                    out += [('z', 'one', v), ('bound z', 'one', v)]
                elif act == 'set z other':
                    out += [('z', 'two', v), ('bound z', 'two', v)]
                elif act == 'set x other':
                    out += [('x', 'two', v), ('bound x', 'two', v)]
                else:
                    return out, True
            if cut == len(acts) and main:
                out += here(event, val, decorated)
            return out, False

        def here(event, val, decorated):
            return ([(event, 'one', val)] if decorated else []) \
                + [('bound ' + event, 'one', val)]

        def do(what, fn, event, val, decorated):
            del trace[:]
            want, fails = expected(event, val, decorated)
            out = outcome(fn)
            expect(what, out, ('raise', Boom) if fails else ('any',))
            if trace != want:
                fail('%s notified %r, expected %r', what, trace, want)

        def plainly(what, fn, want):
            del trace[:]
            expect(what, outcome(fn), ('any',))
            if trace != want:
                fail('%s notified %r, expected %r', what, trace, want)

        def afterwards():
            # nothing is left over
            plainly('dispatch', lambda: two.dispatch('note', 1),
                    [('bound note', 'two', 1)])
            plainly('dispatch', lambda: one.dispatch('note', 1),
                    [('bound note', 'one', 1)])
            state['on'] = False
            plainly('dispatch', lambda: one.dispatch('x', 1),
                    [('bound x', 'one', 1)])
            plainly('dispatch', lambda: two.dispatch('x', 1),
                    [('bound x', 'two', 1)])
            v = value()
            plainly('setting', lambda: setattr(two, 'x', v),
                    [('x', 'two', v), ('bound x', 'two', v)])
            state['on'] = True

        if op == 'delete':
            state['on'] = False
            one.x = 'there'
            state['on'] = True
        for again in range(2):
            if op == 'set':
                v = 'set %d' % again
                do('setting', lambda: setattr(one, 'x', v), 'x', v, True)
                if one.x != v:
                    fail('reads %r after it was set to %r', one.x, v)
            elif op == 'same':
                v = one.x
                plainly('setting what it is', lambda: setattr(one, 'x', v),
                        [])
            elif op == 'delete':
                do('deleting', lambda: delattr(one, 'x'), 'x', UNSET, True)
                if one.x != 0:
                    fail('reads %r after it was deleted', one.x)
                state['on'] = False
                one.x = 'there'
                state['on'] = True
            else:
                do('dispatching', lambda: one.dispatch('x', 5), 'x', 5, False)
            afterwards()
        return op


def tasks(tier):
    q = tier == 'quick'
    out = [Defaults(), Mutable(), Copied(1 if q else 2), Overridden(2 if q else 3)]
    for cls in CLASSES:
        main = cls in ('plain', 'node')
        out.append(Attributes(cls, ('x', 'z'), [1, 0], 'none',
                              3 if q else 4))
        out.append(Attributes(cls, ('y', 'x'), [UNSET, None, 0], 'none',
                              2 if q else 4, tag='-unset'))
        for r in REACT:
            if r == 'none' or (q and not main):
                continue
            for where in ('deco', 'bound'):
                if (r, where) == ('unbind', 'deco'):
                    # bound ones unbound by decorated ones: left open
                    continue
                out.append(Attributes(cls, ('x', 'z'), [1, 0], r,
                                      (3 if cls == 'plain' else 2) if q
                                      else 4, where))
    return out
