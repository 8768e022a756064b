"""C09: nodespaces are separate from children."""
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over interleaved nodespace, child, attribute '
             'and order operations on the real classes against a model')
LEVEL_NOTE = (
    'Every history up to the depth over two nodes, 3 nodespace keys (the bare '
    'underscore ones included), child keys looking alike and of other types, '
    '11 classes; full enumeration of key forms. Trusts the model.')
ASSUMPTIONS = ['nodes stored in nodespaces are not children at the same time',
               'the key __children__ is not assigned or deleted',
               'nodespace keys are used with the item operations (item access, '
               'update, setdefault, pop, get)']


@plumbing(Nodespaces, Adopt, DefaultInit, Nodify, OdictStorage)
class PlainSpaces(object):
    pass


@plumbing(Adopt, Nodespaces, DefaultInit, Nodify, DictStorage)
class InnerSpaces(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Cache, Invalidate, DefaultInit,
          Nodify, OdictStorage)
class CachedSpaces(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Lifecycle, Adopt, Attributes,
          Reference, Order, DefaultInit, Nodify, OdictStorage)
class LifecycleSpaces(object):
    pass


class SubSpaces(zoo.Node):
    pass


class FalsySpaces(zoo.Node):
    """A node which is false."""

    def __bool__(self):
        return False


class EqualSpaces(zoo.Node):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, EqualSpaces)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class Printing(object):
    """No string, but looks like one when printed."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    __repr__ = __str__

    def startswith(self, text):
        return self.text.startswith(text)

    def endswith(self, text):
        return self.text.endswith(text)


class Text(str):
    """Strings of a class of their own are the same keys."""


CLASSES = {
    'Node': zoo.Node, 'AttributedNode': zoo.AttributedNode,
    'OrderedAttributed': zoo.OrderedAttributed,
    'LifecycleFull': zoo.LifecycleFull, 'PlainSpaces': PlainSpaces,
    'InnerSpaces': InnerSpaces, 'CachedSpaces': CachedSpaces,
    'LifecycleSpaces': LifecycleSpaces, 'SubSpaces': SubSpaces,
    'FalsySpaces': FalsySpaces, 'EqualSpaces': EqualSpaces,
}
UNORDERED = ('InnerSpaces',)
SPACES = ['__x__', '__y__', '____']
KIDS = ['a', '_x_', '__x', 1]
PROBE = ['__z__', '__', '___', '__x__y', 'x__', '__X__', 'a__', '_', '']


def verify(m, spaces, kids, ordered, others, place=None):
    """spaces: key -> node; kids: list of (key, node)."""
    ns = m.nodespaces
    if ns['__children__'] is not m or m['__children__'] is not m:
        fail('__children__ is not the node itself')
    for k in others:
        if k in spaces:
            continue
        expect('m[%r]' % (k,), outcome(lambda: m[k]),
               ('raise', KeyError) if k not in dict(kids) else ('any',))
    for k, v in spaces.items():
        if outcome(lambda: m[k])[1] is not v:
            fail('nodespace %r is %r on the node', k, outcome(lambda: m[k]))
        if outcome(lambda: ns[k])[1] is not v:
            fail('nodespace %r is %r in nodespaces', k,
                 outcome(lambda: ns[k]))
        if m.get(k) is not v or k not in m:
            fail('nodespace %r is not reachable by get and in', k)
        at = place(v) if place is not None else None
        if at is not None and (at[0] is not m or at[1] != k):
            # contained elsewhere, and named like there
            continue
        if v.name != k or v.parent is not m:
            fail('nodespace %r has name %r, parent %r', k, v.name, v.parent)
    extra = [k for k in ns.keys()
             if k not in spaces and k not in ('__children__',)]
    if extra:
        fail('unexpected nodespaces %r', extra)
    got = list(m)
    want = [k for k, _ in kids]
    if not ordered:
        got = sorted(got, key=repr)
        want = sorted(want, key=repr)
        kids = sorted(kids, key=lambda kv: repr(kv[0]))
    if got != want or len(m) != len(kids):
        fail('children are %r, expected %r', got, want)
    if sorted(map(repr, m.keys())) != sorted(map(repr, want)):
        fail('keys %r, expected %r', m.keys(), want)
    vals = list(m.values())
    if len(vals) != len(kids) or any(
            not any(v is n for _, n in kids) for v in vals):
        fail('values %r, expected %r', vals, kids)
    for k, n in kids:
        if m[k] is not n or n.name != k or n.parent is not m:
            fail('child %r is %r with name %r', k, m[k], n.name)
    if hasattr(m, 'node') and hasattr(m, 'uuid'):
        for k, n in kids:
            if m.node(n.uuid) is not n:
                fail('child %r not resolved by uuid', k)


class Spaces(Machine):
    no_merge = 0

    def __init__(self, name, cls, depth, spaces, kids, nnodes=3):
        self.name = name
        self.cls = cls
        self.depth = depth
        self.spaces = spaces
        self.kids = kids
        self.nnodes = nnodes
        self.order = hasattr(cls, 'insertfirst')
        self.attrs = hasattr(cls, 'attrs')

    def fresh(self):
        s = State()
        s.pair = [self.cls(name='m'), self.cls(name='o')]
        s.sp = [{}, {}]
        s.ch = [[], []]
        s.values = [None, None]
        s.place = [None] * self.nnodes
        s.nodes = [self.cls() for _ in range(self.nnodes)]
        return s

    def used(self, s, i):
        n = s.nodes[i]
        return any(v is n for d in s.sp for v in d.values()) or any(
            v is n for c in s.ch for _, v in c)

    def ops(self, s):
        free = [i for i in range(self.nnodes) if not self.used(s, i)]
        for w in (0, 1):
            if w == 1 and not s.sp[0] and not s.ch[0]:
                continue
            for k in self.spaces + self.kids:
                for i in free[:2]:
                    yield ('set', w, k, i)
                if k in self.spaces:
                    # at another place as well, or again
                    for i in range(self.nnodes):
                        if any(s.nodes[i] is v for d in s.sp
                               for v in d.values()):
                            yield ('set', w, k, i)
                if free:
                    yield ('update', w, k, free[0])
                    yield ('setdefault', w, k, free[0])
                yield ('del', w, k)
                yield ('pop', w, k)
            yield ('clear', w)
            yield ('popitem', w)
            if self.order and free:
                yield ('ifirst', w, 'n', free[0])
            if self.order and len(s.ch[w]) > 1:
                yield ('swap', w)
            if self.attrs:
                yield ('attr', w)

    def apply(self, s, op):
        name, w = op[:2]
        m, sp, ch = s.pair[w], s.sp[w], s.ch[w]
        if name in ('set', 'update', 'setdefault'):
            k, i = op[2:]
            n = s.nodes[i]
            cur = sp.get(k) if k in self.spaces else dict(ch).get(k)
            if name == 'set':
                out = outcome(m.__setitem__, k, n)
            elif name == 'update':
                out = outcome(m.update, [(k, n)])
            else:
                out = outcome(m.setdefault, k, n)
                expect('setdefault', out, ('is', n if cur is None else cur))
                if cur is not None:
                    return 'present'
            expect('%s %r' % (name, k), out, ('any',))
            s.place[i] = (m, k)
            if k in self.spaces:
                sp[k] = n
            elif cur is not None:
                at = [x for x, _ in ch].index(k)
                ch[at] = (k, n)
            else:
                ch.append((k, n))
            return 'space' if k in self.spaces else 'child'
        if name in ('del', 'pop'):
            k = op[2]
            cur = sp.get(k) if k in self.spaces else dict(ch).get(k)
            out = outcome(m.__delitem__ if name == 'del' else m.pop, k)
            if cur is None:
                expect('%s of missing %r' % (name, k), out,
                       ('raise', KeyError))
                return 'missing'
            expect('%s %r' % (name, k), out,
                   ('is', cur) if name == 'pop' else ('any',))
            if k in self.spaces:
                del sp[k]
            else:
                s.ch[w] = [kv for kv in ch if kv[0] != k]
            return 'space' if k in self.spaces else 'child'
        if name == 'clear':
            expect('clear', outcome(m.clear), ('any',))
            s.ch[w] = []
        elif name == 'popitem':
            out = outcome(m.popitem)
            if not ch:
                expect('popitem', out, ('raise', KeyError))
                return 'empty'
            expect('popitem', out, ('any',))
            k, v = out[1]
            if dict(ch).get(k) is not v or (
                    self.name not in UNORDERED and ch[-1][0] != k):
                fail('popitem returned %r', out[1])
            s.ch[w] = [kv for kv in ch if kv[0] != k]
        elif name == 'ifirst':
            n = s.nodes[op[3]]
            n.__name__ = 'n'
            out = outcome(m.insertfirst, n)
            if 'n' in dict(ch):
                expect('insertfirst', out, ('raise', KeyError))
                return 'taken'
            expect('insertfirst', out, ('any',))
            ch.insert(0, ('n', n))
        elif name == 'swap':
            expect('swap', outcome(m.swap, ch[0][1], ch[-1][1]), ('any',))
            ch[0], ch[-1] = ch[-1], ch[0]
        elif name == 'attr':
            attrs = m.attrs
            attrs['k'] = 1
            s.values[w] = 1
            if sp.get('__attrs__') not in (None, attrs) \
                    or m['__attrs__'] is not attrs:
                fail('attrs is not the nodespace __attrs__')
            sp['__attrs__'] = attrs

    def check(self, s):
        probe = PROBE + self.spaces + ['__attrs__']
        for w in (0, 1):
            kids = s.ch[w]

            def place(v):
                for i, n in enumerate(s.nodes):
                    if n is v:
                        return s.place[i]

            verify(s.pair[w], s.sp[w], kids,
                   self.cls is not InnerSpaces,
                   [k for k in probe if k not in dict(kids)], place)
            if '__attrs__' in s.sp[w] and dict(
                    s.pair[w].attrs.items()) != {'k': 1}:
                fail('attributes changed to %r', s.pair[w].attrs.items())
            # whoever holds them keeps seeing them
            kept = s.__dict__.setdefault('kept', {})
            if kept.setdefault(w, s.pair[w].nodespaces) is not \
                    s.pair[w].nodespaces:
                fail('nodespaces of node %d are other ones than before', w)
        if s.pair[0].nodespaces is s.pair[1].nodespaces:
            fail('two nodes share their nodespaces')


SPACE_FORMS = ['__x__', '____', '___', '__', '_____', '__a b__', '__a/b__',
               u'__\xe4__', '__1__', '__X__', '__children___', '___x___',
               '__' + 'n' * 40 + '__', '__\n__', '__.__', '__init__',
               '__dict__', '__name__', '__parent__', '__x_y__']
KID_FORMS = ['a', '_x_', '__x', 'x__', '_', '', ' __x__', '__x__ ', 'x__y__z',
             u'\xe4', '__x__y', 'y__x__', '-__x__', '__x_', '_x__', 0, 1, -1,
             1.5, None, True, ('__x__',), ('__', '__'), b'__x__', b'a',
             frozenset(['__x__']), Printing('__x__'), Printing('____'), object, 10 ** 20, '.', '__x__.']


class Forms(Cases):
    """Every key form, on its own and together with similar ones."""
    name = 'key-forms'

    def cases(self):
        for name in sorted(CLASSES):
            for k in range(len(SPACE_FORMS)):
                yield (name, 'space', k)
            for k in range(len(KID_FORMS)):
                yield (name, 'kid', k)
            for k in range(len(SPACE_FORMS)):
                for ways in range(1, 8):
                    yield (name, 'text-space', k, ways)
            for k in range(len(KID_FORMS)):
                if isinstance(KID_FORMS[k], str):
                    for ways in range(1, 8):
                        yield (name, 'text-kid', k, ways)
            for k in range(len(SPACE_FORMS)):
                for j in range(len(KID_FORMS)):
                    yield (name, k, j)

    def run(self, case):
        name, a, b = case[:3]
        cls = CLASSES[name]
        if a in ('text-space', 'text-kid'):
            return self.text(cls, name, a, b, case[3])
        m = cls(name='m')
        ordered = name not in UNORDERED
        if a == 'space':
            key = SPACE_FORMS[b]
            expect('m[%r]' % key, outcome(lambda: m[key]), ('raise', KeyError))
            expect('del', outcome(m.__delitem__, key), ('raise', KeyError))
            n = cls()
            m[key] = n
            verify(m, {key: n}, [], ordered, PROBE)
            n2 = cls()
            m[key] = n2
            verify(m, {key: n2}, [], ordered, PROBE)
            m.clear()
            verify(m, {key: n2}, [], ordered, PROBE)
            del m[key]
            verify(m, {}, [], ordered, PROBE + [key])
            m.nodespaces[key] = n
            n.__name__, n.__parent__ = key, m
            verify(m, {key: n}, [], ordered, PROBE)
            del m.nodespaces[key]
            verify(m, {}, [], ordered, PROBE + [key])
            return 'space'
        if a == 'kid':
            key = KID_FORMS[b]
            expect('m[%r]' % (key,), outcome(lambda: m[key]),
                   ('raise', KeyError))
            expect('del', outcome(m.__delitem__, key), ('raise', KeyError))
            n = cls()
            m[key] = n
            verify(m, {}, [(key, n)], ordered, PROBE)
            n2 = cls()
            m[key] = n2
            verify(m, {}, [(key, n2)], ordered, PROBE)
            expect('pop', outcome(m.pop, key), ('is', n2))
            verify(m, {}, [], ordered, PROBE)
            return 'kid'
        sk, kk = SPACE_FORMS[a], KID_FORMS[b]
        x, y = cls(), cls()
        m[kk] = y
        m[sk] = x
        verify(m, {sk: x}, [(kk, y)], ordered, PROBE)
        del m[kk]
        verify(m, {sk: x}, [], ordered, [p for p in PROBE if p != kk])
        m[kk] = y
        del m[sk]
        verify(m, {}, [(kk, y)], ordered, [p for p in PROBE if p != kk])
        return 'both'


    def text(self, cls, name, kind, b, ways):
        """Setting, reading and deleting with strings of another class."""
        ordered = name not in UNORDERED
        key = (SPACE_FORMS if kind == 'text-space' else KID_FORMS)[b]
        kset, kget, kdel = [Text(key) if ways & bit else key
                            for bit in (1, 2, 4)]
        m = cls(name='m')
        for n in (cls(), cls()):
            m[kset] = n
            expect('read', outcome(lambda: m[kget]), ('is', n))
            expect('get', outcome(m.get, kget), ('is', n))
            if kind == 'text-space':
                verify(m, {key: n}, [], ordered, PROBE)
            else:
                verify(m, {}, [(key, n)], ordered, PROBE)
        expect('setdefault', outcome(m.setdefault, kget, cls()), ('is', n))
        expect('del', outcome(m.__delitem__, kdel), ('any',))
        verify(m, {}, [], ordered, PROBE + [key])
        m[kset] = n
        expect('pop', outcome(m.pop, kdel), ('is', n))
        verify(m, {}, [], ordered, PROBE + [key])
        return kind


def tasks(tier):
    deep = tier == 'thorough'
    out = [Forms()]
    for name in sorted(CLASSES):
        out.append(Spaces(name, CLASSES[name], 5 if deep else 3,
                          ['__x__', '__y__'], ['a', '__x']))
        out.append(Spaces(name + '-odd', CLASSES[name], 4 if deep else 2,
                          ['____', '__x__'], ['_x_', 1]))
    return out
