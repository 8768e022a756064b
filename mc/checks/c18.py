"""C18: event dispatch."""
import functools
import gc
import itertools
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.base import AttributedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.events import EventAttribute
from node.events import EventDispatcher
from node.events import Events
from node.events import UnknownEvent
from odict import odict
from plumber import Behavior
from plumber import default
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over histories of registering, binding, '
             'unbinding and dispatching with subscribers which change bindings '
             'or dispatch while notified, on the real dispatchers against a '
             'model; enumeration of class hierarchies declaring events')
LEVEL_NOTE = (
    'Every history up to the depth over 2 dispatchers, 3 events (one with an '
    'empty name), 3 plain and 8 re-entrant or raising subscribers; all '
    'argument forms; all hierarchies of 4 classes declaring events in any '
    'combination; subscribers and dispatchers kept alive by nothing else. '
    'Trusts the model.')
ASSUMPTIONS = ['single thread', 'what happens to the remaining subscribers '
               'after one raised is left open']


class NodeDispatcher(object):
    __events__ = ['a']


@plumbing(Events, Adopt, DefaultInit, Nodify, OdictStorage)
class EventNode(object):
    __events__ = ['a', '']


@plumbing(Events)
class EventAttributed(AttributedNode):
    __events__ = ('a', '')


class Declaring(EventDispatcher):
    __events__ = ['a', '']


class SubDeclaring(Declaring):
    __events__ = ['x']


class Falsy(object):
    """A callable which is false."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args, **kw):
        self.fn(*args, **kw)

    def __len__(self):
        return 0


class Methods(object):
    """Subscribers which are equal but not identical objects."""

    def __init__(self, fn):
        self.fn = fn

    def method(self, *args, **kw):
        self.fn(*args, **kw)


class Boom(Exception):
    pass


DISPATCHERS = {
    'dispatcher': (lambda: EventDispatcher(), []),
    'declaring': (lambda: Declaring(), ['a', '']),
    'sub': (lambda: SubDeclaring(), ['a', '', 'x']),
    'node': (lambda: EventNode('name', None), ['a', '']),
    'attributed': (lambda: EventAttributed(name='name', parent=None),
                   ['a', '']),
    'zoo': (lambda: zoo.EventsNode(name='n'), ['changed']),
}

# what re-entrant subscribers do when notified (once each)
REENTRANT = {
    'r:bind': [('bind', 'self', 'late')],
    'r:bindself': [('bind', 'self', 'me')],
    'r:unbindme': [('unbind', 'self', 'me')],
    'r:unbindnext': [('unbind', 'self', 'p1')],
    'r:unbindall': [('unbind', None, None)],
    'r:unbindevent': [('unbind', 'self', None)],
    'r:rebind': [('unbind', 'self', 'p1'), ('bind', 'self', 'p1')],
    'r:dispatch': [('dispatch', 'other')],
    'r:again': [('dispatch', 'self')],
    'r:both': [('unbind', None, 'p2'), ('dispatch', 'other'),
               ('bind', 'other', 'p2')],
}


class Model(object):
    """One dispatcher."""

    def __init__(self, declared):
        self.declared = set(declared)
        self.own = set()
        self.subs = {}

    def knows(self, ev):
        return ev in self.declared or ev in self.own

    def bind(self, ev, sub):
        subs = self.subs.setdefault(ev, [])
        if sub not in subs:
            subs.append(sub)

    def unbind(self, ev, sub):
        for e in list(self.subs):
            if ev is not None and e != ev:
                continue
            if sub is None:
                self.subs[e] = []
            elif sub in self.subs[e]:
                self.subs[e].remove(sub)


ARGS = [((), {}), ((1,), {}), ((None, 'x'), {'k': 2}), ((), {'value': None})]


class Dispatch(Machine):

    def __init__(self, kind, events, plain, reentrant, depth, ndis, tag=''):
        self.kind = kind
        self.events = events
        self.plain = plain
        self.reentrant = reentrant
        self.depth = depth
        self.ndis = ndis
        self.name = 'dispatch-%s%s' % (kind, tag)

    def fresh(self):
        factory, declared = DISPATCHERS[self.kind]
        s = State(ds=[factory() for _ in range(self.ndis)], log=[],
                  ms=[Model(declared) for _ in range(self.ndis)], subs={},
                  active={})
        for name in self.plain + ('late',):
            s.subs[name] = self.subscriber(s, name)
        for name in self.reentrant:
            s.subs[name] = self.subscriber(s, name)
        return s

    def subscriber(self, s, name):
        def call(*args, **kw):
            s.log.append((name, args, kw))
            if name == 'raise':
                raise Boom()
            for i in s.active.pop(name, ()):
                i()
        if name == 'falsy':
            return Falsy(call)
        if name == 'method':
            return Methods(call)
        return call

    def sub(self, s, name):
        x = s.subs[name]
        return x.method if isinstance(x, Methods) else x

    def ops(self, s):
        names = self.plain + self.reentrant
        for i in range(self.ndis):
            evs = self.events if i == 0 else self.events[:1]
            for ev in evs:
                if not s.ms[i].declared or ev == self.events[0]:
                    # those of the class may be registered once more
                    yield ('register', i, ev)
                for n in names if i == 0 else names[:1]:
                    yield ('bind', i, ev, n)
                    if i == 0:
                        yield ('unbind', i, ev, n)
                yield ('unbind', i, ev, None)
                yield ('dispatch', i, ev, 0)
            yield ('unbind', i, None, None)
            for n in names if i == 0 else names[:1]:
                yield ('unbind', i, None, n)
        yield ('register', 0, 'new')
        yield ('bind', 0, 'new', names[0])
        yield ('bind2', 0, self.events[0], 'unknown', names[0])
        for a in range(1, len(ARGS)):
            yield ('dispatch', 0, self.events[0], a)
        yield ('dispatch', 0, 'unknown', 0)

    def apply(self, s, op):
        kind, i = op[:2]
        d, m = s.ds[i], s.ms[i]
        if kind == 'register':
            expect('register', outcome(d.register_event, op[2]), ('any',))
            m.own.add(op[2])
            return
        if kind == 'bind':
            ev, n = op[2:]
            out = outcome(lambda: d.bind(**{ev: self.sub(s, n)}))
            if not m.knows(ev):
                expect('binding unknown %r' % ev, out,
                       ('raise', UnknownEvent))
                if not isinstance(out[1], ValueError):
                    fail('UnknownEvent is no ValueError')
                return 'unknown'
            expect('binding %r' % ev, out, ('any',))
            m.bind(ev, n)
            return
        if kind == 'bind2':
            # one of the events is unknown: nothing is bound
            for kw in (odict([(op[2], self.sub(s, op[4])),
                              (op[3], self.sub(s, op[4]))]),
                       odict([(op[3], self.sub(s, op[4])),
                              (op[2], self.sub(s, op[4]))])):
                kw = dict(kw.items())
                expect('binding unknown', outcome(lambda: d.bind(**kw)),
                       ('raise', UnknownEvent))
            return 'unknown'
        if kind == 'unbind':
            ev, n = op[2:]
            kw = {}
            if ev is not None:
                kw['event'] = ev
            if n is not None:
                kw['subscriber'] = self.sub(s, n)
            expect('unbind %r' % (op[2:],), outcome(lambda: d.unbind(**kw)),
                   ('any',))
            m.unbind(ev, n)
            return
        if kind == 'dispatch':
            ev = op[2]
            args, kw = ARGS[op[3]]
            return self.dispatch(s, i, ev, args, kw)

    def dispatch(self, s, i, ev, args, kw):
        d, m = s.ds[i], s.ms[i]
        other = [e for e in self.events if e != ev]
        other = other[0] if other else ev
        s.active = {}
        for name in self.reentrant:
            s.active[name] = [self.action(s, d, a, ev, other, name)
                              for a in REENTRANT[name]]
        want = []
        pending = {name: True for name in self.reentrant}
        raised = self.simulate(s, m, ev, other, args, kw, want, pending)
        del s.log[:]
        out = outcome(lambda: d.dispatch(ev, *args, **kw))
        got = list(s.log)
        del s.log[:]
        s.active = {}
        if raised:
            expect('dispatch with failing subscriber', out, ('raise', Boom))
            got = got[:len(want)]
        else:
            expect('dispatch', out, ('any',))
        if [g[0] for g in got] != [w[0] for w in want]:
            fail('dispatching %r called %r, expected %r', ev,
                 [g[0] for g in got], [w[0] for w in want])
        for g, w in zip(got, want):
            if g[1] != w[1] or g[2] != w[2] or any(
                    x is not y for x, y in zip(g[1], w[1])):
                fail('subscriber %s called with %r %r, expected %r %r', g[0],
                     g[1], g[2], w[1], w[2])
        return '%d called' % min(len(got), 4)

    def action(self, s, d, a, ev, other, me):
        def name_event(x):
            return {'self': ev, 'other': other, None: None}[x]

        def act():
            if a[0] == 'bind':
                n = me if a[2] == 'me' else a[2]
                try:
                    d.bind(**{name_event(a[1]): self.sub(s, n)})
                except UnknownEvent:
                    s.log.append(('unknown', (), {}))
            elif a[0] == 'unbind':
                kw = {}
                if a[1] is not None:
                    kw['event'] = name_event(a[1])
                if a[2] is not None:
                    kw['subscriber'] = self.sub(
                        s, me if a[2] == 'me' else a[2])
                d.unbind(**kw)
            else:
                d.dispatch(name_event(a[1]), 'nested')
        return act

    def simulate(self, s, m, ev, other, args, kw, want, pending):
        """Append the expected calls; True if a subscriber raises."""
        def name_event(x):
            return {'self': self.top, 'other': other, None: None}[x]
        if not want and kw is not None:
            self.top = ev
        for n in list(m.subs.get(ev, ())):
            want.append((n, args, kw))
            if n == 'raise':
                return True
            if not pending.pop(n, False):
                continue
            for a in REENTRANT[n]:
                if a[0] == 'bind':
                    e = name_event(a[1])
                    if m.knows(e):
                        m.bind(e, n if a[2] == 'me' else a[2])
                    else:
                        want.append(('unknown', (), {}))
                elif a[0] == 'unbind':
                    m.unbind(name_event(a[1]), n if a[2] == 'me' else a[2])
                else:
                    if self.simulate(s, m, name_event(a[1]), other,
                                     ('nested',), {}, want, pending):
                        return True
        return False

    def check(self, s):
        """Dispatch every event on every dispatcher, twice."""
        for i in range(self.ndis):
            for ev in self.events + ('new',):
                self.dispatch(s, i, ev, (i,), {'k': ev})
        for i in range(self.ndis):
            for ev in self.events:
                self.dispatch(s, i, ev, (), {})


# ----------------------------------------------------------------- hierarchies
class Hierarchy(Cases):
    """Base, Sub(Base), Grand(Sub), Sibling(Base): every combination of
    declarations."""
    name = 'hierarchies'

    def __init__(self, decls, variants):
        self.decls = decls
        self.variants = variants

    def cases(self):
        for variant in self.variants:
            for combo in itertools.product(self.decls, repeat=4):
                yield (variant, combo)

    def namespace(self, decl, shared, n):
        ns = {}
        if 'e' in decl:
            ns['__events__'] = ['e%d' % n]
        if 's' in decl:
            # the very same list in several classes
            ns['__events__'] = shared
        if 't' in decl:
            ns['__events__'] = ('t%d' % n, 'common')
        if 'a' in decl:
            ns['attr%d' % n] = EventAttribute(0)
        return ns

    def events(self, decl, n):
        out = set()
        if 'e' in decl:
            out.add('e%d' % n)
        if 's' in decl:
            out.add('shared')
        if 't' in decl:
            out |= set(['t%d' % n, 'common'])
        if 'a' in decl:
            out.add('attr%d' % n)
        return out

    def run(self, case):
        variant, combo = case
        shared = ['shared']
        if variant == 'plumbed':
            base = plumbing(Events)(type('Base', (object,), self.namespace(
                combo[0], shared, 0)))
        elif variant == 'node':
            base = plumbing(Events, DefaultInit, Nodify, OdictStorage)(type(
                'Base', (object,), self.namespace(combo[0], shared, 0)))
        elif variant == 'behavior':
            class Beh(Behavior):
                battr = default(EventAttribute(1))
            base = plumbing(Beh)(type('Base', (EventDispatcher,),
                                      self.namespace(combo[0], shared, 0)))
        else:
            base = type(EventDispatcher)('Base', (EventDispatcher,),
                                         self.namespace(combo[0], shared, 0))
        meta = type(base)
        early = base()
        sub = meta('Sub', (base,), self.namespace(combo[1], shared, 1))
        grand = meta('Grand', (sub,), self.namespace(combo[2], shared, 2))
        sibling = meta('Sibling', (base,), self.namespace(combo[3], shared, 3))
        evs = [self.events(c, n) for n, c in enumerate(combo)]
        if variant == 'behavior':
            evs[0].add('battr')
        known = {'base': (base, evs[0]), 'early': (early, evs[0]),
                 'sub': (sub, evs[0] | evs[1]),
                 'grand': (grand, evs[0] | evs[1] | evs[2]),
                 'sibling': (sibling, evs[0] | evs[3]),
                 'stock': (EventDispatcher, set())}
        names = set(['nothing', 'mine', 'battr'])
        for n in range(4):
            names |= self.events('esta', n) | set(['e%d' % n])
        ds = {}
        for who, (cls, have) in known.items():
            d = cls if who == 'early' else cls()
            ds[who] = d
        # register on one instance of each class
        for round_ in range(2):
            for who, d in ds.items():
                have = known[who][1]
                own = set(['mine']) if round_ and who == 'sub' else set()
                for ev in sorted(names):
                    out = outcome(lambda: d.bind(**{ev: len}))
                    if ev in have or ev in own:
                        if out[0] != 'ok':
                            fail('%s refuses the event %r: %r', who, ev, out)
                    elif out[0] == 'ok' or not isinstance(out[1],
                                                          UnknownEvent):
                        fail('%s accepts the event %r, which neither it nor '
                             'its bases declare', who, ev)
                    d.unbind()
            ds['sub'].register_event('mine')
        # bindings do not leak
        log = []
        for who, d in sorted(ds.items()):
            for ev in sorted(known[who][1]):
                d.bind(**{ev: lambda *a, **k: log.append(a)})
                for other, o in ds.items():
                    if o is not d:
                        o.dispatch(ev, other)
                if log:
                    fail('%r bound on %s was called for %r', ev, who, log)
                d.dispatch(ev, 1)
                if log != [(1,)]:
                    fail('dispatching %r on %s called %r', ev, who, log)
                del log[:]
                d.unbind()
        if shared != ['shared']:
            fail('declared list was changed to %r', shared)
        return variant


# name of a class -> its bases; 'D' is a dispatcher class, 'P' makes one by
# plumbing, classes below dispatchers are dispatchers
MIXINS = {
    'chain first': (('A', ''), ('B', 'A'), ('X', 'BD')),
    'chain last': (('A', ''), ('B', 'A'), ('X', 'DB')),
    'long chain': (('A', ''), ('B', 'A'), ('C', 'B'), ('X', 'CD')),
    'plumbed': (('A', ''), ('B', 'A'), ('X', 'BP')),
    'plain diamond': (('A', ''), ('B', 'A'), ('C', 'A'), ('X', 'BCD')),
    'two mixins': (('A', ''), ('B', ''), ('X', 'AD'), ('Y', 'XB')),
    'mixin below': (('A', ''), ('B', 'A'), ('X', 'D'), ('Y', 'BX')),
    'inherited': (('A', ''), ('B', 'A'), ('X', 'BD'), ('Y', 'X')),
    'diamond': (('X', 'D'), ('Y', 'D'), ('Z', 'XY')),
    'deep diamond': (('X', 'D'), ('Y', 'X'), ('Z', 'X'), ('W', 'YZ')),
    'mixed diamond': (('A', ''), ('X', 'AD'), ('Y', 'AD'), ('Z', 'XY')),
}


class Mixins(Cases):
    """Events declared anywhere above a class, plain classes included."""
    name = 'mixins'

    def cases(self):
        for name in sorted(MIXINS):
            for combo in itertools.product(('', 'e', 't', 's'),
                                           repeat=len(MIXINS[name])):
                yield (name, combo)

    def run(self, case):
        name, combo = case
        shared = ['shared']
        classes = {'D': EventDispatcher}
        events = {'D': set(), 'P': set()}
        plain = set()
        for (cls, bases), decl in zip(MIXINS[name], combo):
            ns = {}
            own = set()
            if decl == 's':
                ns['__events__'] = shared
                own = set(shared)
            elif decl:
                own = set([cls.lower(), 'common'])
                ns['__events__'] = (list if decl == 'e' else tuple)(
                    sorted(own))
            up = [classes[b] for b in bases if b != 'P']
            typ = type
            for b in up:
                if isinstance(b, type) and type(b) is not type:
                    typ = type(b)
            made = typ(cls, tuple(up) or (object,), ns)
            if 'P' in bases:
                made = plumbing(Events)(made)
            elif typ is type:
                plain.add(cls)
            classes[cls] = made
            events[cls] = own.union(*[events[b] for b in bases])
        names = set(['shared', 'common', 'nothing']).union(
            *[set([c.lower()]) for c, _ in MIXINS[name]])
        log = []
        for cls, _ in MIXINS[name]:
            if cls in plain:
                continue
            d, other = classes[cls](), classes[cls]()
            for ev in sorted(names):
                def call(*args, ev=ev):
                    log.append((ev,) + args)
                out = outcome(lambda: d.bind(**{ev: call}))
                if ev in events[cls]:
                    expect('%s binding %r' % (cls, ev), out, ('any',))
                    d.dispatch(ev, 1)
                    other.dispatch(ev, 2)
                    if log != [(ev, 1)]:
                        fail('dispatching %r on %s called %r', ev, cls, log)
                else:
                    expect('%s binding %r' % (cls, ev), out,
                           ('raise', UnknownEvent))
                del log[:]
        if shared != ['shared']:
            fail('declared list was changed to %r', shared)
        return name


class Many(Cases):
    """Long subscriber lists keep their order."""
    name = 'sizes'

    def __init__(self, sizes):
        self.sizes = sizes

    def cases(self):
        for n in self.sizes:
            for kind in sorted(DISPATCHERS):
                yield (n, kind)

    def run(self, case):
        n, kind = case
        d = DISPATCHERS[kind][0]()
        d.register_event('many')
        d.register_event('many')
        log = []
        subs = [(lambda i: lambda *a: log.append((i, a)))(i)
                for i in range(n)]
        for x in subs:
            d.bind(many=x)
            d.bind(many=x)
        d.dispatch('many', n)
        if log != [(i, (n,)) for i in range(n)]:
            fail('called %r', [i for i, _ in log])
        gone = range(0, n, 2)
        for i in gone:
            d.unbind(event='many', subscriber=subs[i])
        del log[:]
        for i in gone:
            d.bind(many=subs[i])
        d.dispatch('many')
        want = [i for i in range(n) if i not in gone] + list(gone)
        if [i for i, _ in log] != want:
            fail('called %r, expected %r', [i for i, _ in log], want)


class Slotted(object):
    __slots__ = ('log',)

    def __init__(self, log):
        self.log = log

    def __call__(self, *args, **kw):
        self.log.append((args, kw))

    method = __call__


class Recorder(object):

    def __init__(self, log):
        self.log = log

    def method(self, *args, **kw):
        self.log.append((args, kw))

    __call__ = method

    @property
    def nested(self):
        return functools.partial(self.method)

    @classmethod
    def cm(cls, log, *args, **kw):
        log.append((args, kw))


TEMPORARY = {
    'method': lambda log: Recorder(log).method,
    'callable': Recorder, 'slotted': Slotted,
    'slotted-method': lambda log: Slotted(log).method,
    'partial': lambda log: functools.partial(Recorder(log)),
    'partial-method': lambda log: Recorder(log).nested,
    'lambda': lambda log: (lambda *args, **kw: log.append((args, kw))),
    'special': lambda log: Recorder(log).__call__,
    'class-method': lambda log: functools.partial(
        type('C', (Recorder,), {}).cm, log),
    'falsy': lambda log: Falsy(Recorder(log).method),
}


class Temporary(Cases):
    """Subscribers nothing but the dispatcher knows."""
    name = 'temporary'

    def cases(self):
        for kind in sorted(DISPATCHERS):
            for a in sorted(TEMPORARY):
                for b in sorted(TEMPORARY):
                    for way in ('bind', 'two', 'rebind', 'attr'):
                        yield (kind, a, b, way)

    def run(self, case):
        kind, a, b, way = case
        log, other = [], []
        if way == 'attr':
            class D(EventDispatcher):
                x = EventAttribute(0)

                def __init__(self):
                    pass
            x = [v for k, v in D.__dict__.items() if k == 'x'][0]
            x.subscriber(TEMPORARY[a](log))
            x.subscriber(TEMPORARY[b](other))
            gc.collect(0)
            d = D()
            for i in (1, 2):
                d.x = i
            for got in (log, other):
                if got != [((d, 1), {}), ((d, 2), {})]:
                    fail('attribute subscribers called with %r', got)
            return way
        d = DISPATCHERS[kind][0]()
        d.register_event('e')
        d.register_event('f')
        if way == 'two':
            d.bind(e=TEMPORARY[a](log), f=TEMPORARY[b](other))
        else:
            d.bind(e=TEMPORARY[a](log))
            d.bind(f=TEMPORARY[b](other))
        if way == 'rebind':
            d.bind(e=TEMPORARY[b](other))
            d.unbind(event='f')
        gc.collect(0)
        d.dispatch('e', 1, k=None)
        d.dispatch('f', 1, k=None)
        d.dispatch('e', 2)
        want = [((1,), {'k': None}), ((2,), {})]
        if log != want:
            fail('%s was called with %r', a, log)
        if way != 'rebind':
            want = want[:1]
        if other != want:
            fail('%s was called with %r', b, other)
        return way


def tasks(tier):
    q = tier == 'quick'
    out = []
    for kind in sorted(DISPATCHERS):
        if kind == 'zoo':
            evs = ('changed', 'b')
        else:
            evs = ('a', '') if kind != 'dispatcher' else ('a', 'b')
        main = kind in ('dispatcher', 'declaring')
        out.append(Dispatch(kind, evs, ('p1', 'p2', 'method'),
                            (), (4 if kind == 'declaring' else 3) if main
                            and q else (3 if q and False else
                                        (2 if q else 4)), 2))
    names = sorted(REENTRANT)
    for n, r in enumerate(names):
        out.append(Dispatch('declaring', ('a', ''), ('p1', 'p2'), (r,),
                            3 if q else 4, 1, '-' + r))
        out.append(Dispatch('dispatcher', ('a', 'b'), ('p1', 'p2'), (r,),
                            2 if q else 4, 1, '-' + r))
        if not q:
            for r2 in names[n + 1:]:
                out.append(Dispatch('declaring', ('a', ''), ('p1',), (r, r2),
                                    4, 1, '-%s-%s' % (r, r2)))
    out.append(Dispatch('declaring', ('a', ''), ('p1', 'raise', 'p2'), (),
                        3 if q else 4, 1, '-raise'))
    out.append(Dispatch('declaring', ('a', ''), ('falsy', 'p1'), (),
                        3 if q else 4, 1, '-falsy'))
    out.append(Hierarchy(['', 'e', 's', 'a', 'ea'] if q else
                         ['', 'e', 's', 't', 'a', 'ea', 'ta'],
                         ['plumbed', 'stock'] if q else
                         ['plumbed', 'stock', 'node', 'behavior']))
    if q:
        h = Hierarchy(['', 'e', 't'], ['node', 'behavior'])
        h.name = 'hierarchies-nodes'
        out.append(h)
    out.append(Mixins())
    out.append(Temporary())
    out.append(Many([1, 2, 3, 8, 40] if q else [1, 2, 3, 8, 40, 300]))
    return out
