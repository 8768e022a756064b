"""C15: fixed children."""
import functools
import itertools
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import FixedChildren
from node.behaviors import FullMapping
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.behaviors import UUIDAware
from odict import odict
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over histories of write attempts on real '
             'classes with fixed children, and enumeration of all factory '
             'configurations')
LEVEL_NOTE = (
    'All configurations of up to 3 factories out of 13 kinds x 10 stacks, two '
    'instances each; every history up to the depth over 20 kinds of write '
    'attempts on existing and missing keys. Trusts the recorded children.')
ASSUMPTIONS = ['factory keys are distinct',
               'writes go through mapping operations, not through private '
               'attributes']

WRITERS = odict([
    ('set', lambda m, k, v: m.__setitem__(k, v)),
    ('del', lambda m, k, v: m.__delitem__(k)),
    ('pop', lambda m, k, v: m.pop(k)),
    ('popd', lambda m, k, v: m.pop(k, None)),
    ('popitem', lambda m, k, v: m.popitem()),
    ('clear', lambda m, k, v: m.clear()),
    ('update', lambda m, k, v: m.update({k: v})),
    ('updatelist', lambda m, k, v: m.update([(k, v)])),
    ('updatekw', lambda m, k, v: m.update(**{k: v})),
    ('setdefault', lambda m, k, v: m.setdefault(k, v)),
    ('detach', lambda m, k, v: m.detach(k)),
    ('attrset', lambda m, k, v: setattr(m.as_attribute_access(), k, v)),
    ('attrdel', lambda m, k, v: delattr(m.as_attribute_access(), k)),
    ('invalidate', lambda m, k, v: m.invalidate(k)),
    ('invalidateall', lambda m, k, v: m.invalidate()),
    ('opset', lambda m, k, v: operator_setitem(m, k, v)),
])
NODE_ONLY = ('detach',)


def operator_setitem(m, k, v):
    import operator
    operator.setitem(m, k, v)


class Plain(object):
    pass


@plumbing(FixedChildren, DefaultInit, Nodify)
class NestedFixed(object):
    fixed_children_factories = (('x', zoo.BaseNode), ('y', Plain))


class WithInit(zoo.BaseNode):
    """Reads its configuration when constructed."""

    def __init__(self):
        super(WithInit, self).__init__()
        self['inner'] = zoo.BaseNode()


def function_factory():
    return zoo.OrderedNode(name='other')


class Falsy(zoo.BaseNode):
    """A node which is false."""

    def __bool__(self):
        return False


class Equal(zoo.OrderedNode):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


def located_factory(name='default', parent=None):
    return zoo.OrderedNode(name=name, parent=parent)


def named_factory(name='default', parent=None, **kw):
    """Takes name and parent, but does as it likes."""
    return zoo.BaseNode(name='mine')


def any_factory(*args, **kw):
    return Plain()


class Callable(object):
    """An instance which is a factory."""

    def __call__(self, name=None, parent=None):
        return zoo.BaseNode()


FACTORIES = odict([
    ('BaseNode', zoo.BaseNode), ('Node', zoo.Node), ('Plain', Plain),
    ('NestedFixed', NestedFixed), ('WithInit', WithInit),
    ('function', function_factory), ('Falsy', Falsy), ('Equal', Equal),
    ('located', located_factory), ('named', named_factory),
    ('any', any_factory), ('partial', functools.partial(
        zoo.BaseNode, name='partial')), ('callable', Callable()),
])

STACKS = odict([
    ('nodify', (Nodify, FixedChildren)),
    ('init', (FixedChildren, DefaultInit, Nodify)),
    ('mapping', (FullMapping, FixedChildren)),
    ('adopt', (Adopt, DefaultInit, Nodify, FixedChildren)),
    ('full', (NodeChildValidate, Nodespaces, Adopt, Attributes, AsAttrAccess,
              DefaultInit, Nodify, FixedChildren)),
    ('lifecycle', (Lifecycle, Adopt, AsAttrAccess, DefaultInit, Nodify,
                   FixedChildren)),
    ('unicode', (Adopt, UnicodeAware, DefaultInit, Nodify, FixedChildren)),
    ('invalidate', (Adopt, Invalidate, AsAttrAccess, DefaultInit, Nodify,
                    FixedChildren)),
    ('getattr', (GetattrChildren, FixedChildren, DefaultInit, Nodify)),
    ('uuid', (UUIDAware, FixedChildren, DefaultInit, Nodify)),
])


def build(stack, factories):
    return plumbing(*STACKS[stack])(type('Fixed', (object,), {
        'fixed_children_factories': factories}))


def location(child):
    return child.__name__, child.__parent__


def verify(m, keys, kinds, children=None, what='', moved=()):
    """m holds exactly the children; returns them."""
    if list(m) != list(keys) or list(m.keys()) != list(keys) \
            or len(m) != len(keys):
        fail('%sholds %r, configured %r', what, list(m), keys)
    got = [m[k] for k in keys]
    for _ in range(2):
        vals = list(m.values())
        items = list(m.items())
        if len(vals) != len(got) or any(
                a is not b for a, b in zip(vals, got)) or any(
                    a is not b for (_, a), b in zip(items, got)) or \
                [k for k, _ in items] != list(keys):
            fail('%svalues %r differ from items %r', what, vals, got)
    for n, (k, child) in enumerate(zip(keys, got)):
        if children is not None and child is not children[n]:
            fail('%schild %r is another one', what, k)
        if any(child is x for x in got[:n]):
            fail('%schildren are shared', what)
        if n in moved:
            continue
        if child.__name__ != k or child.__parent__ is not m:
            fail('%schild %r has name %r and parent %r', what, k,
                 child.__name__, child.__parent__)
        want = FACTORIES[kinds[n]]
        if isinstance(want, type) and type(child) is not want:
            fail('%schild %r is a %r', what, k, child)
        if kinds[n] in ('WithInit',) and list(child) != ['inner']:
            fail('%schild %r contains %r', what, k, list(child))
        if kinds[n] == 'NestedFixed':
            verify(child, ('x', 'y'), ('BaseNode', 'Plain'), None, what)
        if k not in m or m.get(k) is not child:
            fail('%schild %r not reachable', what, k)
        if hasattr(m, 'path') and hasattr(child, 'path'):
            if child.path != m.path + [k] or child.root is not m.root:
                fail('%schild %r has path %r', what, k, child.path)
    return got


class Configurations(Cases):
    name = 'configurations'

    def __init__(self, n):
        self.n = n

    def cases(self):
        for stack in STACKS:
            for k in range(self.n + 1):
                for kinds in itertools.product(FACTORIES, repeat=k):
                    yield (stack, kinds, ['b', '', 'a', 'c'][:k])
                    if k == 2:
                        yield (stack, kinds, ['', 'b'])

    def run(self, case):
        stack, kinds, names = case
        calls = []

        def counted(k, f):
            def factory(*args, **kw):
                calls.append(k)
                return f(*args, **kw)
            return factory
        # factories as they are, the same ones for several keys
        cls = build(stack, tuple((k, FACTORIES[x])
                                 for k, x in zip(names, kinds)))
        kids = verify(cls(), names, kinds, None, 'plain factories: ')
        for a, b in itertools.product(kids, verify(cls(), names, kinds)):
            if a is b:
                fail('instances share the child %r', a)
        forms = [tuple, list]
        for form in forms:
            del calls[:]
            cls = build(stack, form([(k, counted(k, FACTORIES[x]))
                                     for k, x in zip(names, kinds)]))
            one = cls()
            if calls != names:
                fail('construction created %r, configured %r', calls, names)
            kids = verify(one, names, kinds)
            two = cls() if stack in ('nodify', 'mapping') else cls(
                name='two', parent=zoo.BaseNode(name='top'))
            if calls != names + names:
                fail('constructions created %r', calls)
            other = verify(two, names, kinds, None, 'second instance: ')
            for a, b in zip(kids, other):
                if a is b:
                    fail('instances share the child %r', a)
            verify(one, names, kinds, kids, 'after second instance: ')
            if calls != names + names:
                fail('reading created %r', calls)
            if stack not in ('nodify', 'mapping') and (
                    two.name != 'two' or two.path[:2] != ['top', 'two']):
                fail('name and parent were not passed on: %r', two.path)

            class Sub(cls):
                fixed_children_factories = (('own', zoo.BaseNode),)
            verify(Sub(), ('own',), ('BaseNode',), None, 'subclass: ')

            # factories of the instance, computed or set
            class Computed(cls):

                @property
                def fixed_children_factories(self):
                    return [('own', zoo.BaseNode), ('more', zoo.BaseNode)]
            verify(Computed(), ('own', 'more'), ('BaseNode', 'BaseNode'),
                   None, 'computed: ')

            class Chosen(cls):

                def __new__(klass, *args, **kw):
                    inst = super(Chosen, klass).__new__(klass)
                    inst.fixed_children_factories = [('own', zoo.BaseNode)]
                    return inst
            verify(Chosen(), ('own',), ('BaseNode',), None, 'chosen: ')
            verify(cls(), names, kinds, None, 'after subclass: ')
        return stack


class Meanwhile(Cases):
    """Factories look at what has been made before them (what they find is not
    judged, the node is not complete), make further nodes of the same class, or
    fail.
    """
    name = 'meanwhile'

    def cases(self):
        for stack in sorted(STACKS):
            for n in (1, 2, 3, 4):
                for acts in itertools.product(
                        ('look', 'nest', 'fail', 'none'), repeat=n):
                    yield (stack, acts)

    def run(self, case):
        stack, acts = case
        names = ['k%d' % i for i in range(len(acts))]
        made = []
        nested = []
        named = stack not in ('nodify', 'mapping')

        def look():
            for i, child in enumerate(made):
                if child.name != names[i]:
                    fail('child %r is named %r while later ones are made',
                         names[i], child.name)
                if child.parent is None or child.parent is not made[0].parent:
                    fail('child %r belongs to %r while later ones are made',
                         names[i], child.parent)
                if type(child.parent) is not cls:
                    fail('child %r belongs to %r', names[i], child.parent)
                if named and child.path != ['n', names[i]]:
                    fail('path of %r is %r while later ones are made',
                         names[i], child.path)

        def factory(i):
            def make():
                if deep:
                    return zoo.BaseNode()
                if acts[i] == 'look':
                    for child in made:
                        child.name, child.parent
                elif acts[i] == 'fail':
                    raise Failed(i)
                elif acts[i] == 'nest':
                    deep.append(1)
                    try:
                        other = cls()
                    finally:
                        deep.pop()
                    if list(other) != names or any(
                            other[k].name != k or other[k].parent is not other
                            for k in names):
                        fail('node made meanwhile has %r', other.items())
                    nested.append(other)
                child = zoo.BaseNode()
                made.append(child)
                return child
            return make

        deep = []
        cls = build(stack, tuple((k, factory(i))
                                 for i, k in enumerate(names)))
        if 'fail' in acts:
            at = acts.index('fail')
            out = outcome(lambda: cls(name='n') if named else cls())
            if out[0] != 'raise' or not isinstance(out[1], Failed) \
                    or out[1].args != (at,):
                fail('a factory failed: %r', out)
            if len(made) != at:
                fail('%d children were made before the failure', len(made))
            return 'failed'
        node = cls(name='n') if named else cls()
        if list(node) != names or [id(c) for c in node.values()] \
                != [id(c) for c in made]:
            fail('children are %r', node.items())
        look()
        if made and made[0].parent is not node:
            fail('children belong to %r', made[0].parent)
        return 'made'


class Failed(Exception):
    pass


class Attempts(Machine):

    def __init__(self, stack, kinds, depth):
        self.stack = stack
        self.kinds = kinds
        self.depth = depth
        self.names = ['b', 'a', 'c'][:len(kinds)]
        self.cls = build(stack, tuple(
            (k, FACTORIES[x]) for k, x in zip(self.names, kinds)))
        self.name = 'attempts-%s-%d' % (stack, len(kinds))

    def fresh(self):
        ms = [self.cls(), self.cls()]
        kids = [verify(m, self.names, self.kinds) for m in ms]
        return State(ms=ms, kids=kids, free=zoo.BaseNode(name='free'),
                     moved=[set(), set()], other=zoo.DictValues(name='o'))

    def ops(self, s):
        for i in (0, 1):
            for w in WRITERS:
                if 'attr' in w and not hasattr(s.ms[0],
                                               'as_attribute_access'):
                    continue
                if w in NODE_ONLY and not hasattr(type(s.ms[0]), w):
                    continue
                if 'invalidate' in w and self.stack != 'invalidate':
                    continue
                for k in ('a', 'new'):
                    for v in ('node', 'own', 'same', 'value'):
                        if v == 'same' and k not in self.names:
                            continue
                        if i == 1 and (k, v) != ('a', 'node'):
                            continue
                        if v == 'value' and w != 'set':
                            continue
                        yield (w, i, k, v)
        yield ('inner', 0)
        yield ('configure', 0)
        for i in (0, 1):
            for how in ('noparent', 'noname', 'neither', 'named', 'parented',
                        'adopted', 'swapped'):
                if i == 0 or how in ('neither', 'adopted'):
                    yield ('move', i, how)

    def apply(self, s, op):
        kind, i = op[:2]
        m = s.ms[i]
        if kind == 'inner':
            # children themselves may be changed
            for child in s.kids[i]:
                if isinstance(child, zoo.OrderedNode):
                    child['x%d' % len(child)] = zoo.OrderedNode()
            return
        if kind == 'configure':
            # the instance is built already
            m.fixed_children_factories = (('b', Plain), ('new', Plain))
            return
        if kind == 'move':
            # what happens to a child does not change where it is contained
            how = op[2]
            for n, child in enumerate(s.kids[i][:2]):
                s.moved[i].add(n)
                if how in ('noparent', 'neither'):
                    child.__parent__ = None
                if how in ('noname', 'neither'):
                    child.__name__ = None
                if how == 'named':
                    child.__name__ = 'new'
                if how == 'parented':
                    child.__parent__ = s.other
                if how == 'adopted':
                    s.other['k%d' % n] = child
                    child.__name__ = 'k%d' % n
                    child.__parent__ = s.other
                if how == 'swapped':
                    child.__name__ = self.names[1 - n]
                    child.__parent__ = s.ms[1 - i]
            return
        k = op[2]
        v = s.free
        if op[3] == 'own':
            v = s.kids[i][-1] if s.kids[i] else s.free
        elif op[3] == 'same':
            v = s.kids[i][self.names.index(k)]
        elif op[3] == 'value':
            v = 1
        loc = location(v) if v != 1 else None
        out = outcome(lambda: WRITERS[kind](m, k, v))
        have = k in self.names
        if kind == 'setdefault' and have:
            expect(kind, out, ('is', s.kids[i][self.names.index(k)]))
            label = 'present'
        elif kind == 'popd' and not have:
            expect(kind, out, ('is', None))
            label = 'default'
        elif kind in ('clear', 'invalidateall') and not self.names:
            label = 'nothing to do'
        elif kind == 'set' or (kind == 'del' and have) or (
                kind.startswith('update')):
            if out[0] == 'ok':
                fail('%s of %r was not refused', kind, k)
            if v != 1 or 'Validate' not in str(STACKS[self.stack]):
                expect(kind, out, ('raise', NotImplementedError))
            label = 'refused'
        else:
            if out[0] == 'ok':
                fail('%s of %r was not refused', kind, k)
            label = 'refused'
        if loc is not None and location(v) != loc:
            fail('refused node has location %r, before %r', location(v), loc)
        return label

    def check(self, s):
        for i, m in enumerate(s.ms):
            verify(m, self.names, self.kinds_now(s), s.kids[i],
                   'instance %d ' % i, s.moved[i])
            for k in ('new', 'nokey'):
                expect('m[%r]' % k, outcome(lambda: m[k]),
                       ('raise', KeyError))
                if k in m:
                    fail('%r in node', k)

    def kinds_now(self, s):
        return self.kinds


def tasks(tier):
    q = tier == 'quick'
    out = [Configurations(2 if q else 4), Meanwhile()]
    for stack in STACKS:
        out.append(Attempts(stack, ('BaseNode', 'function', 'NestedFixed'),
                            2 if q else 3))
        out.append(Attempts(stack, (), 1 if q else 2))
    return out
