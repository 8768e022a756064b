"""C32: attribute style access mirrors item access."""
from mc import env  # noqa: F401
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Storage
from node.behaviors.alias import DictAliaser
from node.utils import AttributeAccess
from node.utils import UNSET
from node.utils import instance_property
from odict import odict
from plumber import plumbing
import copy

TECHNIQUE = ('explicit-state search over all histories mixing attribute style '
             'and item style reads, writes and deletions, on all node types '
             'providing attribute access, compared with a reference '
             'dictionary after every step through every style')
LEVEL_NOTE = (
    'All histories to depth 3 (5) over three keys, two values and three to '
    'five styles on 17 kinds of contexts, seven sets of names (plain, odd, '
    'named like methods); 23 kinds of values under the name of every method; children through attribute lookup on 7 classes with '
    'real attributes of every kind coming and going.')
ASSUMPTIONS = ["the key 'context' and names every python object has are taken "
               'by attribute access objects themselves']


class Refusing(dict):
    """Not a mapping of everything: refuses with other errors."""

    def __getitem__(self, key):
        if key == 'c':
            raise ValueError('reading refused')
        return dict.__getitem__(self, key)

    def __setitem__(self, key, val):
        if key == 'c':
            raise TypeError('writing refused')
        dict.__setitem__(self, key, val)

    def __delitem__(self, key):
        if key == 'c':
            raise RuntimeError('deleting refused')
        dict.__delitem__(self, key)


class LookupDict(dict):
    """Raises subclasses of KeyError."""

    class Missing(KeyError):
        pass

    def __getitem__(self, key):
        if key not in self:
            raise self.Missing(key)
        return dict.__getitem__(self, key)

    def __delitem__(self, key):
        if key not in self:
            raise self.Missing(key)
        dict.__delitem__(self, key)


class Worded(dict):
    """Raises errors which do not tell the key alone."""

    def __missing__(self, key):
        raise KeyError('no %s here' % key, key)

    def __delitem__(self, key):
        if key not in self:
            raise KeyError('no %s here' % key)
        dict.__delitem__(self, key)


class Wordless(dict):
    """Raises errors without arguments, one for another."""

    class Missing(KeyError):

        def __init__(self):
            super(Wordless.Missing, self).__init__()

    def __getitem__(self, key):
        try:
            return dict.__getitem__(self, key)
        except KeyError:
            raise self.Missing()

    def __delitem__(self, key):
        try:
            dict.__delitem__(self, key)
        except KeyError:
            raise KeyError


@plumbing(AsAttrAccess, Adopt, DefaultInit, Nodify, OdictStorage)
class Values(object):
    pass


@plumbing(AsAttrAccess, Adopt, Cache, Invalidate, DefaultInit, Nodify,
          DictStorage)
class Cached(object):
    pass


@plumbing(AsAttrAccess, GetattrChildren, Adopt, DefaultInit, Nodify, Storage)
class Unlike(object):
    """Its storage raises errors of its own."""

    @instance_property
    def storage(self):
        return zoo.Strict()


@plumbing(AsAttrAccess, Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class Aliased(object):
    pass


def aliased():
    node = Aliased()
    node.aliaser = DictAliaser([('a', 'x'), ('b', 'y'), ('c', 'z')],
                               strict=False)
    return node


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, DefaultInit,
          Nodify, OdictStorage)
class AccessAttrs(object):
    attribute_access_for_attrs = True


class Context(object):
    """A mapping and its access objects."""

    def __init__(self, ob, node=True, values=None):
        self.ob = ob
        self.accs = [AttributeAccess(ob)]
        if node:
            self.accs.append(ob.as_attribute_access())
        self.node = node
        self.values = values or (lambda n: (n, 0, None, '', UNSET, [])[n % 6])

    def acc(self, style):
        if style < len(self.accs):
            return self.accs[style]
        return self.ob.as_attribute_access()


class AttrsContext(Context):
    """Attributes of a node which are accessed as object attributes."""

    def __init__(self):
        self.owner = AccessAttrs(name='owner')
        acc = self.owner.attrs
        self.ob = object.__getattribute__(acc, 'context')
        self.accs = [acc]
        self.node = True
        self.values = lambda n: (n, 0, None, '', UNSET, [])[n % 6]

    def acc(self, style):
        return self.owner.attrs if style else self.accs[0]


def own(cls):
    return lambda: Context(cls(), values=lambda n: cls())


CONTEXTS = [
    ('dict', lambda: Context({}, False)),
    ('odict', lambda: Context(odict(), False)),
    ('refusing', lambda: Context(Refusing(), False)),
    ('subclassed errors', lambda: Context(LookupDict(), False)),
    ('worded errors', lambda: Context(Worded(), False)),
    ('wordless errors', lambda: Context(Wordless(), False)),
    ('Strict', lambda: Context(zoo.Strict(), False)),
    ('OwnMissing', lambda: Context(zoo.OwnMissing(), False)),
    ('Unlike', lambda: Context(Unlike())),
    ('Values', lambda: Context(Values())),
    ('Cached', lambda: Context(Cached())),
    ('Aliased', lambda: Context(aliased())),
    ('attrs', AttrsContext),
    ('OrderedNode', own(zoo.OrderedNode)),
    ('BaseNode', own(zoo.BaseNode)),
    ('Node', own(zoo.Node)),
    ('AttributedNode', own(zoo.AttributedNode)),
    ('LifecycleFull', own(zoo.LifecycleFull)),
]
NAMES = [
    ('a', 'b', 'c'),
    ('keys', 'name', 'values'),
    ('__x', u'\xfc', 'with space'),
    ('_storage', 'ob', 'get'),
    ('__parent__', 'parent', '__name__'),
    ('', '1', 'class'),
    ('items', 'update', 'copy'),
]
REFUSED = {'read': ValueError, 'set': TypeError, 'del': RuntimeError}


class Access(Machine):
    no_merge = 1

    def __init__(self, name, make, names, depth):
        self.name = 'access %s %s' % (name, '/'.join(repr(n) for n in names))
        self.make = make
        self.names = names
        self.depth = depth
        self.refusing = name == 'refusing'

    def fresh(self):
        s = State()
        s.ctx = self.make()
        s.model = {}
        s.n = 0
        return s

    def ops(self, s):
        for name in self.names:
            for way in ('set', 'del'):
                yield (way, 'item', 0, name)
                for i in range(3 if s.ctx.node else 1):
                    yield (way, 'attr', i, name)
                    yield (way, 'acc item', i, name)
            yield ('wrong', 'attr', 0, name)

    def apply(self, s, op):
        way, style, i, name = op
        what = '%s of %r by %s' % (way, name, style)
        refused = REFUSED.get(way) if self.refusing and name == 'c' else None
        target = s.ctx.ob if style == 'item' else s.ctx.acc(i)
        if way == 'wrong':
            # what the item operation refuses, attribute style does
            val = 'no node'
            before = dict(s.ctx.ob)
            one = outcome(s.ctx.ob.__setitem__, name, val)
            if one[0] == 'ok':
                s.model[name] = val
                expect(what, outcome(setattr, target, name, val), ('any',))
                return 'accepted'
            expect(what, outcome(setattr, target, name, val),
                   ('raise', type(one[1])))
            if dict(s.ctx.ob) != before:
                fail('refused write changed the context')
            return 'refused'
        if way == 'set':
            s.n += 1
            val = s.ctx.values(s.n)
            if style == 'attr':
                out = outcome(setattr, target, name, val)
            else:
                out = outcome(target.__setitem__, name, val)
            if refused:
                expect(what, out, ('raise', refused))
                return 'refused'
            expect(what, out, ('any',))
            s.model[name] = val
            return
        if style == 'attr':
            out = outcome(delattr, target, name)
        else:
            out = outcome(target.__delitem__, name)
        if refused:
            expect(what, out, ('raise', refused))
            return 'refused'
        if name not in s.model:
            expect(what, out, ('raise', AttributeError if style == 'attr'
                               else KeyError))
            return 'missing'
        expect(what, out, ('any',))
        del s.model[name]

    def check(self, s):
        ob = s.ctx.ob
        if set(ob) != set(s.model) or len(ob) != len(s.model):
            fail('context holds %r, expected %r', list(ob), s.model)
        for name in self.names + ('other',):
            if self.refusing and name == 'c':
                expect('read', outcome(getattr, s.ctx.acc(0), name),
                       ('raise', ValueError))
                continue
            there = name in s.model
            want = s.model.get(name)
            expect('context[%r]' % name, outcome(lambda: ob[name]),
                   ('is', want) if there else ('raise', KeyError))
            for i in range(3 if s.ctx.node else 1):
                acc = s.ctx.acc(i)
                expect('access %d attribute %r' % (i, name),
                       outcome(getattr, acc, name),
                       ('is', want) if there else ('raise', AttributeError))
                expect('access %d item %r' % (i, name),
                       outcome(lambda: acc[name]),
                       ('is', want) if there else ('raise', KeyError))
                if hasattr(acc, name) is not there:
                    fail('hasattr(%r) is %r', name, not there)
                if getattr(acc, name, s) is not (want if there else s):
                    fail('getattr(%r, default) is %r', name,
                         getattr(acc, name, s))

    def roots(self, s):
        return [s.ctx.ob, s.ctx.accs, s.model, s.n % 6]


# ---------------------------------------------------------------------------
# children as attributes
# ---------------------------------------------------------------------------

class RealAttrs(object):
    """Real attributes of every kind."""
    inherited = 'inherited'

    @property
    def prop(self):
        return 'prop'

    def method(self):
        return 'method'

    @staticmethod
    def static():
        return 'static'


@plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, OdictStorage)
class Getattr(RealAttrs):
    own = None
    falsy = 0


class SubGetattr(Getattr):
    """Subclass adding attributes."""
    late = 'late'


@plumbing(GetattrChildren)
class GetattrOver(Values):
    """Plumbed onto a subclass of a node."""
    own = None
    falsy = 0
    inherited = 'inherited'
    prop = property(lambda self: 'prop')
    method = RealAttrs.method
    static = staticmethod(RealAttrs.static)


@plumbing(GetattrChildren, Adopt, Cache, Invalidate, DefaultInit, Nodify,
          DictStorage)
class GetattrCached(RealAttrs):
    own = None
    falsy = 0


@plumbing(GetattrChildren, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class GetattrFallback(RealAttrs):
    own = None
    falsy = 0


@plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, Storage)
class GetattrUnlike(RealAttrs):
    own = None
    falsy = 0

    @instance_property
    def storage(self):
        return zoo.Strict()


@plumbing(Nodespaces, Adopt, Attributes, AsAttrAccess, GetattrChildren,
          DefaultInit, Nodify, OdictStorage)
class GetattrAttributed(RealAttrs):
    own = None
    falsy = 0


REAL = {'own': None, 'falsy': 0, 'inherited': 'inherited', 'prop': 'prop'}


class Children(Machine):
    """Children and real attributes of the same names."""
    no_merge = 1

    def __init__(self, cls, names, depth):
        self.cls = cls
        self.names = names
        self.name = 'children of %s %s' % (cls.__name__, ' '.join(names))
        self.depth = depth

    def fresh(self):
        s = State()
        s.node = self.cls(name='node')
        s.model = {}
        s.real = {}
        s.n = 0
        return s

    def ops(self, s):
        for name in self.names:
            yield ('set', name)
            yield ('node', name)
            yield ('del', name)
            if name not in ('prop', '__parent__', 'keys'):
                yield ('real', name)
                if name in s.real:
                    yield ('unreal', name)
        yield ('clear', '')

    def apply(self, s, op):
        way, name = op
        node = s.node
        if way in ('set', 'node'):
            s.n += 1
            val = (s.n, 0, None, '', [])[s.n % 5] if way == 'set' \
                else self.cls()
            expect('%s %r' % (way, name),
                   outcome(node.__setitem__, name, val), ('any',))
            s.model[name] = val
        elif way == 'del':
            out = outcome(node.__delitem__, name)
            if name not in s.model:
                expect('deleting %r' % name, out, ('raise', KeyError))
                return 'missing'
            expect('deleting %r' % name, out, ('any',))
            del s.model[name]
        elif way == 'real':
            s.n += 1
            val = (None, 'real', 0)[s.n % 3]
            setattr(node, name, val)
            s.real[name] = val
        elif way == 'unreal':
            delattr(node, name)
            del s.real[name]
        elif way == 'clear':
            node.clear()
            s.model = {}

    def check(self, s):
        node = s.node
        if set(node) != set(s.model):
            fail('node holds %r, expected %r', list(node), s.model)
        for name in self.names + ('other',):
            there = name in s.model
            expect('node[%r]' % name, outcome(lambda: node[name]),
                   ('is', s.model[name]) if there else ('raise', KeyError))
            if name in s.real:
                want = ('is', s.real[name])
            elif name in REAL:
                want = ('ok', REAL[name])
            elif name in ('method', 'static'):
                out = outcome(lambda: getattr(node, name)())
                expect('node.%s()' % name, out, ('ok', name))
                continue
            elif name == 'late' and self.cls is SubGetattr:
                want = ('ok', 'late')
            elif name in ('keys', 'values'):
                out = outcome(lambda: len(getattr(node, name)()))
                expect('node.%s()' % name, out, ('ok', len(s.model)))
                continue
            elif name == '__parent__':
                want = ('is', None)
            elif there:
                want = ('is', s.model[name])
            else:
                want = ('raise', AttributeError)
            out = outcome(getattr, node, name)
            expect('node.%s' % name, out, want)
            if hasattr(node, name) is not (want[0] != 'raise'):
                fail('hasattr(node, %r) is %r', name, hasattr(node, name))
            got = getattr(node, name, s)
            if (got is s) is not (want[0] == 'raise'):
                fail('getattr(node, %r, default) is %r', name, got)

    def roots(self, s):
        return [s.node, s.model, s.real, s.n % 15]


class Created(object):

    def __init__(self):
        self.made = True


@plumbing(GetattrChildren, ChildFactory, DefaultInit, Nodify, OdictStorage)
class GetattrFactory(object):
    factories = odict([('a', Created), ('b', Values)])


class Factory(Machine):
    """Children created on first access in either style."""
    name = 'children created on access'
    no_merge = 1

    def __init__(self, depth):
        self.depth = depth

    def fresh(self):
        s = State()
        s.node = GetattrFactory()
        s.model = {}
        return s

    def ops(self, s):
        for key in ('a', 'b', 'c'):
            for style in ('attr', 'item', 'get'):
                yield ('read', style, key)
        for key in s.model:
            yield ('del', 'item', key)

    def apply(self, s, op):
        way, style, key = op
        if way == 'del':
            del s.node[key]
            del s.model[key]
            return
        if style == 'attr':
            out = outcome(getattr, s.node, key)
        elif style == 'item':
            out = outcome(lambda: s.node[key])
        else:
            out = outcome(getattr, s.node, key, None)
        if key == 'c':
            expect('reading %r by %s' % (key, style), out, {
                'attr': ('raise', AttributeError),
                'item': ('raise', KeyError), 'get': ('is', None)}[style])
            return
        expect('reading %r by %s' % (key, style), out, ('any',))
        if key in s.model:
            expect('reading %r again' % key, out, ('is', s.model[key]))
        elif not isinstance(out[1], GetattrFactory.factories[key]):
            fail('reading %r by %s gives %r', key, style, out[1])
        s.model[key] = out[1]

    def check(self, s):
        for key, val in s.model.items():
            if s.node[key] is not val or getattr(s.node, key) is not val:
                fail('created child %r changed', key)


class Described(object):
    """Would do something when found on a class."""

    def __get__(self, ob, cls=None):
        return 'got'

    def __set__(self, ob, val):
        raise TypeError('refused')

    def __set_name__(self, cls, name):
        raise TypeError('refused')

    def __call__(self, *args):
        return 'called'


class Odd(object):
    """Neither comparable nor with a truth value."""
    __hash__ = None

    def __eq__(self, other):
        raise TypeError('not comparable')

    __ne__ = __eq__

    def __bool__(self):
        raise TypeError('no truth value')

    __len__ = __bool__


STORED = [len, lambda: 1, Values, Described, Described(), property(len), Odd(),
          KeyError, KeyError('a'), AttributeError('a'), NotImplemented,
          Ellipsis, object(), {}.keys, Refusing(), odict(), (), iter([1]),
          staticmethod(len), classmethod(len), type, UNSET, Refusing]


class Stored(Cases):
    """Values of every kind under names of every kind, on contexts holding
    any values."""
    name = 'values'
    NAMES = sorted(set(
        [n for names in NAMES for n in names]
        + [n for n in dir(zoo.OrderedNode) if not n.startswith('__')]
        + [n for n in dir(dict) if not n.startswith('__')])
        - set(['context']))

    def cases(self):
        for i in range(len(CONTEXTS)):
            if CONTEXTS[i][0] in ('refusing', 'Aliased', 'OrderedNode',
                                  'BaseNode', 'Node', 'AttributedNode',
                                  'LifecycleFull'):
                # nodes only, or names of their own
                continue
            for name in self.NAMES:
                yield (i, name)

    def run(self, case):
        i, name = case
        if name.startswith('__') and CONTEXTS[i][0] == 'attrs':
            return 'nodespaces'
        for val in STORED:
            for style in range(3):
                ctx = CONTEXTS[i][1]()
                others = ctx.acc(0)
                others.other = val
                acc = ctx.acc(style if ctx.node else 0)
                names = dir(type(acc))
                if style == 2:
                    ctx.ob[name] = val
                else:
                    setattr(acc, name, val)
                self.there(ctx, name, val)
                # replaced by another one, and back
                for other in (STORED[0], None, val):
                    setattr(acc, name, other)
                    self.there(ctx, name, other)
                if list(ctx.ob) != ['other', name] \
                        and list(ctx.ob) != [name, 'other']:
                    fail('keys are %r', list(ctx.ob))
                delattr(acc, name)
                for x in (acc, ctx.acc(0)):
                    expect('deleted', outcome(getattr, x, name),
                           ('raise', AttributeError))
                    expect('deleting again', outcome(delattr, x, name),
                           ('raise', AttributeError))
                if list(ctx.ob) != ['other'] or ctx.ob['other'] is not val \
                        or others.other is not val:
                    fail('left are %r', list(ctx.ob.items()))
                if dir(type(acc)) != names:
                    fail('the class changed')

    def there(self, ctx, name, val):
        if ctx.ob[name] is not val:
            fail('context[%r] is %r', name, ctx.ob[name])
        for style in range(3 if ctx.node else 1):
            acc = ctx.acc(style)
            expect('attribute', outcome(getattr, acc, name), ('is', val))
            expect('item', outcome(lambda: acc[name]), ('is', val))


class Copied(Cases):
    """Copies of what was accessed before."""
    name = 'copies'
    WAYS = {'copy.copy': copy.copy, 'deepcopy': copy.deepcopy,
            'copy': lambda ob: ob.copy(),
            'own deepcopy': lambda ob: ob.deepcopy()}

    def cases(self):
        for i in range(len(CONTEXTS)):
            for way in sorted(self.WAYS):
                for before in range(4):
                    for again in sorted(self.WAYS) + ['']:
                        yield (i, way, before, again)

    def run(self, case):
        i, way, before, again = case
        name, make = CONTEXTS[i]
        if name in ('attrs', 'Aliased', 'Strict', 'OwnMissing', 'Unlike',
                    'refusing'):
            return 'skip'
        ctx = make()
        obs = [ctx.ob]
        for w in (way, again):
            if not w:
                continue
            last = obs[-1]
            if ctx.node and w == 'copy.copy' or w == 'copy' and name in (
                    'Node', 'AttributedNode', 'LifecycleFull'):
                # shares the storage or the index of nodes
                return 'skip'
            if not ctx.node and 'deepcopy' == w[-8:] and w != 'deepcopy' \
                    or not hasattr(last, 'copy') and w == 'copy':
                return 'skip'
            if before & 1:
                setattr(self.acc(ctx, last), 'a', ctx.values(0))
            if before & 2:
                outcome(getattr, self.acc(ctx, last), 'b')
            if isinstance(last, dict) and type(last) not in (dict, odict) \
                    and w == 'copy':
                # yields a plain dict
                return 'skip'
            obs.append(self.WAYS[w](last))
        model = [dict(ob) for ob in obs]
        for n, ob in enumerate(obs):
            for key in ('mine%d' % n, 'c'):
                val = ctx.values(n + 1)
                setattr(self.acc(ctx, ob), key, val)
                model[n][key] = val
                self.compare(ctx, obs, model)
        for n, ob in enumerate(obs):
            delattr(self.acc(ctx, ob), 'c')
            del model[n]['c']
            self.compare(ctx, obs, model)
            expect('deleting again', outcome(
                delattr, self.acc(ctx, ob), 'c'), ('raise', AttributeError))

    def acc(self, ctx, ob):
        return ob.as_attribute_access() if ctx.node else AttributeAccess(ob)

    def compare(self, ctx, obs, model):
        for n, ob in enumerate(obs):
            if sorted(ob) != sorted(model[n]):
                fail('%d. copy holds %r, expected %r', n, list(ob), model[n])
            for key in ('a', 'b', 'c', 'mine0', 'mine1', 'mine2'):
                there = key in model[n]
                for acc in (self.acc(ctx, ob), AttributeAccess(ob)):
                    expect('%d. copy, %s' % (n, key), outcome(
                        getattr, acc, key), ('is', model[n][key]) if there
                        else ('raise', AttributeError))
                expect('%d. copy, item %s' % (n, key), outcome(
                    lambda: ob[key]), ('is', model[n][key]) if there
                    else ('raise', KeyError))


def tasks(tier):
    quick = tier == 'quick'
    out = [Factory(4 if quick else 6), Stored(), Copied()]
    for name, make in CONTEXTS:
        for names in NAMES:
            if name == 'refusing' and 'c' not in names:
                continue
            if name in ('Node', 'AttributedNode', 'LifecycleFull') \
                    and '__parent__' in names:
                # these are nodespaces
                names = ('_parent', 'parent', 'path')
            if name == 'Aliased' and 'a' not in names and quick:
                continue
            out.append(Access(name, make, names,
                              (3 if quick else 4) if names == NAMES[0] else
                              (2 if quick else 3)))
    for cls in (Getattr, SubGetattr, GetattrOver, GetattrCached,
                GetattrFallback, GetattrAttributed, GetattrUnlike):
        for names in (('a', 'own', 'prop'), ('b', 'falsy', 'inherited'),
                      ('keys', 'late', 'method'),
                      ('static', '__parent__', '_x'),
                      ('__x', '', '_'), ('__x_', 'x__', ' a'),
                      ('class', '1', u'\xfc')):
            if cls is GetattrAttributed and '__parent__' in names:
                continue
            out.append(Children(cls, names, 3 if quick else 4))
    return out
