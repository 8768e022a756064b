"""C05: order operations against a reference list."""
import itertools
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from plumber import Behavior
from plumber import plumb
from plumber import plumbing

TECHNIQUE = ('explicit-state BFS over order operation histories on the real '
             'classes against a reference list')
LEVEL_NOTE = (
    'All histories up to the depth, mostly up to the fixpoint of reachable '
    'states, of the order, mapping and refused operations over pools of 4-6 '
    'nodes; all positions and pairs of larger nodes. Trusts the reference '
    'list.')
ASSUMPTIONS = ['an inserted node is not contained in another node']

WAYS = ('ifirst', 'ilast', 'ibefore', 'iafter')
REFUSED = (ValueError, KeyError)


def call(m, way, new, ref=None):
    if way == 'ifirst':
        return outcome(m.insertfirst, new)
    if way == 'ilast':
        return outcome(m.insertlast, new)
    if way == 'ibefore':
        return outcome(m.insertbefore, new, ref)
    return outcome(m.insertafter, new, ref)


def observe(m, order, named, what, others=()):
    """order: list of (name, node)."""
    keys = [k for k, _ in order]
    nodes = [n for _, n in order]

    def bad(view, got):
        fail('%s: %s yields %r, expected %r', what, view, got, keys)
    if list(m) != keys:
        bad('iteration', list(m))
    if list(m.keys()) != keys:
        bad('keys', m.keys())
    if list(m.iterkeys()) != keys:
        bad('iterkeys', list(m.iterkeys()))
    for view in ('values', 'itervalues'):
        got = list(getattr(m, view)())
        if len(got) != len(nodes) or any(
                a is not b for a, b in zip(got, nodes)):
            bad(view, got)
    for view in ('items', 'iteritems'):
        got = list(getattr(m, view)())
        if [k for k, _ in got] != keys or any(
                a is not b for (_, a), b in zip(got, nodes)):
            bad(view, got)
    if len(m) != len(keys):
        bad('len', len(m))
    for k, n in order:
        if outcome(lambda: m[k])[1] is not n:
            fail('%s: child %r is not reachable under its name', what, k)
        if k not in m:
            fail('%s: %r not contained', what, k)
        if n.name != k or n.parent is not m:
            fail('%s: child %r has name %r, parent %r', what, k, n.name,
                 n.parent)
    for k in named:
        if k not in keys and (k in m or m.get(k) is not None):
            fail('%s: missing %r is contained', what, k)
    if hasattr(m, 'node'):
        for n in nodes:
            if m.node(n.uuid) is not n or n.node(m.uuid) is not m:
                fail('%s: %r not resolved by uuid', what, n)
        for n in others:
            if all(n is not x for x in nodes) and m.node(n.uuid) is not None:
                fail('%s: uuid of removed node resolved', what)


class Refused(Exception):
    pass


class Refusing(Behavior):
    """Refuses children named bad."""

    @plumb
    def __setitem__(_next, self, key, val):
        if key == 'bad':
            raise Refused(key)
        _next(self, key, val)


@plumbing(Refusing, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class RefusingOuter(object):
    pass


@plumbing(Reference, Adopt, Order, Refusing, DefaultInit, Nodify,
          OdictStorage)
class RefusingInner(object):
    pass


@plumbing(Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Falsy(object):
    """A node which is false."""

    def __bool__(self):
        return False


@plumbing(Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Equal(object):
    """All nodes are equal."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class Ordering(Machine):
    no_merge = 0

    def __init__(self, name, cls, depth, names, fill=(), extra=True,
                 refused=True):
        self.name = name
        self.cls = cls
        self.depth = depth
        self.names = names
        self.fill = fill
        self.extra = extra
        self.refused = refused

    def fresh(self):
        s = State()
        s.m = self.cls(name='m')
        s.nodes = [self.cls(name=n) for n in self.names]
        s.order = []
        for i in self.fill:
            s.m[self.names[i]] = s.nodes[i]
            s.order.append(i)
        return s

    def ops(self, s):
        n = len(self.names)
        taken = [self.names[i] for i in s.order]
        for i in range(n):
            contained = i in s.order
            if (contained or self.names[i] in taken) and not self.refused:
                continue
            yield ('ifirst', i)
            yield ('ilast', i)
            for r in s.order:
                yield ('ibefore', i, r)
                yield ('iafter', i, r)
            if self.refused:
                # reference nodes which name no child
                for r in range(n):
                    if self.names[r] not in taken:
                        yield ('ibefore', i, r)
                        yield ('iafter', i, r)
        if self.refused:
            for way in ('ifirst', 'ilast') + (
                    ('ibefore', 'iafter') if s.order else ()):
                yield ('noname', way)
        for a in s.order:
            for b in s.order:
                if a != b:
                    yield ('swap', a, b)
            if self.refused:
                yield ('swapself', a)
                yield ('swapout', a)
            yield ('del', a)
        if self.extra:
            for i in range(n):
                if i not in s.order:
                    yield ('set', i)
            for a in s.order:
                yield ('detach', a)
                yield ('again', a)
            yield ('popitem',)
            yield ('clear',)

    def apply(self, s, op):
        m, names = s.m, self.names
        way = op[0]
        if way in WAYS:
            i = op[1]
            ref = op[2] if len(op) > 2 else None
            taken = [names[j] for j in s.order]
            parent = s.nodes[i].parent
            out = call(m, way, s.nodes[i],
                       None if ref is None else s.nodes[ref])
            what = '%s(%s%s)' % (way, names[i], '' if ref is None
                                 else ', ' + names[ref])
            bad = names[i] in taken or (ref is not None
                                        and ref not in s.order)
            if bad:
                expect(what, out, ('raise', REFUSED))
                if s.nodes[i].name != names[i] or \
                        s.nodes[i].parent is not parent:
                    fail('%s was refused but changed the node', what)
                return 'refused'
            if names[i] == 'bad':
                expect(what, out, ('raise', Refused))
                if s.nodes[i].name != 'bad' or \
                        s.nodes[i].parent is not parent:
                    fail('%s was refused but changed the node', what)
                return 'refused'
            expect(what, out, ('any',))
            pos = 0 if way == 'ifirst' else len(s.order)
            if ref is not None:
                pos = s.order.index(ref) + (way == 'iafter')
            s.order.insert(pos, i)
        elif way == 'noname':
            new = self.cls()
            ref = s.nodes[s.order[-1]] if s.order else None
            expect('%s of unnamed node' % op[1], call(m, op[1], new, ref),
                   ('raise', REFUSED))
            if new.name is not None or new.parent is not None:
                fail('unnamed node changed')
            return 'refused'
        elif way == 'swap':
            a, b = op[1:]
            expect('swap', outcome(m.swap, s.nodes[a], s.nodes[b]), ('any',))
            x, y = s.order.index(a), s.order.index(b)
            s.order[x], s.order[y] = b, a
        elif way == 'swapself':
            outcome(m.swap, s.nodes[op[1]], s.nodes[op[1]])
            return 'refused'
        elif way == 'swapout':
            other = self.cls(name='stranger')
            expect('swap with a stranger', outcome(
                m.swap, s.nodes[op[1]], other), ('raise', REFUSED))
            expect('swap a stranger', outcome(
                m.swap, other, s.nodes[op[1]]), ('raise', REFUSED))
            expect('swap two strangers', outcome(
                m.swap, other, self.cls(name='stranger')), ('raise', REFUSED))
            expect('swap a stranger with itself', outcome(
                m.swap, other, other), ('raise', REFUSED))
            return 'refused'
        elif way == 'set':
            i = op[1]
            key = names[i]
            out = outcome(m.__setitem__, key, s.nodes[i])
            if key == 'bad':
                expect('set', out, ('raise', Refused))
                return 'refused'
            expect('set', out, ('any',))
            for n, j in enumerate(s.order):
                if names[j] == key:
                    s.order[n] = i
                    break
            else:
                s.order.append(i)
        elif way == 'again':
            expect('set again', outcome(m.__setitem__, names[op[1]],
                                        s.nodes[op[1]]), ('any',))
        elif way == 'del':
            expect('del', outcome(m.__delitem__, names[op[1]]), ('any',))
            s.order.remove(op[1])
        elif way == 'detach':
            expect('detach', outcome(m.detach, names[op[1]]),
                   ('is', s.nodes[op[1]]))
            s.order.remove(op[1])
        elif way == 'popitem':
            out = outcome(m.popitem)
            if not s.order:
                expect('popitem', out, ('raise', KeyError))
                return 'empty'
            expect('popitem', out, ('any',))
            i = s.order.pop()
            if out[1][0] != names[i] or out[1][1] is not s.nodes[i]:
                fail('popitem returned %r, last is %r', out[1], names[i])
        elif way == 'clear':
            expect('clear', outcome(m.clear), ('any',))
            s.order = []

    def check(self, s):
        observe(s.m, [(self.names[i], s.nodes[i]) for i in s.order],
                self.names, 'history', s.nodes)


class Positions(Cases):
    """Every operation at every position of nodes of many sizes."""
    name = 'positions'

    def __init__(self, classes, sizes):
        self.classes = classes
        self.sizes = sizes

    def cases(self):
        for name in self.classes:
            for n in self.sizes:
                for i in range(n):
                    yield (name, n, 'ibefore', i, 0)
                    yield (name, n, 'iafter', i, 0)
                    for j in range(n):
                        if i != j:
                            yield (name, n, 'swap', i, j)
                    for j in range(n):
                        yield (name, n, 'move', i, j)
                yield (name, n, 'ifirst', 0, 0)
                yield (name, n, 'ilast', 0, 0)

    def run(self, case):
        name, n, way, i, j = case
        cls = getattr(zoo, name)
        m = cls(name='m')
        order = []
        # built back to front by order operations only
        for k in range(n):
            key = 'k%d' % ((k * 5) % 97)
            new = cls(name=key)
            if k % 3 == 0:
                m.insertlast(new)
                order.append((key, new))
            elif k % 3 == 1:
                m.insertfirst(new)
                order.insert(0, (key, new))
            else:
                at = k // 2
                m.insertbefore(new, order[at][1])
                order.insert(at, (key, new))
        observe(m, order, [], 'building %d children' % n)
        new = cls(name='new')
        if way == 'swap':
            m.swap(order[i][1], order[j][1])
            order[i], order[j] = order[j], order[i]
        elif way == 'move':
            key, moved = order.pop(i)
            got = m.detach(key)
            if got is not moved:
                fail('detach returned another node')
            if not order:
                m.insertfirst(moved)
                order.append((key, moved))
            elif j >= len(order):
                m.insertafter(moved, order[-1][1])
                order.append((key, moved))
            else:
                m.insertbefore(moved, order[j][1])
                order.insert(j, (key, moved))
        else:
            pos = {'ifirst': 0, 'ilast': n, 'ibefore': i, 'iafter': i + 1}[way]
            expect(way, call(m, way, new, order[i][1] if order else None),
                   ('any',))
            order.insert(pos, ('new', new))
        observe(m, order, ['new', 'nokey'], '%s at %d,%d of %d' % (
            way, i, j, n))
        # a second operation on the result
        last = cls(name='last')
        m.insertafter(last, order[0][1])
        order.insert(1, ('last', last))
        if len(order) > 2:
            m.swap(order[0][1], order[-1][1])
            order[0], order[-1] = order[-1], order[0]
        observe(m, order, ['nokey'], 'after %s at %d,%d of %d' % (
            way, i, j, n))
        del m[order[0][0]]
        observe(m, order[1:], [order[0][0]], 'removed first')
        return way


class Permute(Cases):
    """Every permutation is reached by swaps and by insertions."""
    name = 'permutations'

    def __init__(self, classes, n):
        self.classes = classes
        self.n = n

    def cases(self):
        for name in self.classes:
            for p in itertools.permutations(range(self.n)):
                for how in ('swap', 'before', 'after'):
                    yield (name, how, p)

    def run(self, case):
        name, how, perm = case
        cls = getattr(zoo, name)
        m = cls(name='m')
        nodes = [cls(name='n%d' % i) for i in range(self.n)]
        if how == 'swap':
            for x in nodes:
                m[x.name] = x
            cur = list(range(self.n))
            for pos, want in enumerate(perm):
                if cur[pos] != want:
                    at = cur.index(want)
                    m.swap(nodes[cur[pos]], nodes[want])
                    cur[at], cur[pos] = cur[pos], cur[at]
        else:
            placed = []
            # insert in index order, each at its final relative position
            for i in range(self.n):
                rel = sorted(placed + [i], key=perm.index)
                at = rel.index(i)
                if not placed:
                    m.insertfirst(nodes[i])
                elif how == 'before' and at + 1 < len(rel):
                    m.insertbefore(nodes[i], nodes[rel[at + 1]])
                elif at > 0:
                    m.insertafter(nodes[i], nodes[rel[at - 1]])
                else:
                    m.insertfirst(nodes[i])
                placed.append(i)
        observe(m, [('n%d' % i, nodes[i]) for i in perm], ['x'],
                'permutation %r by %s' % (perm, how))
        return how


class Hide(Behavior):
    """Keeps children to itself while enumerating."""

    @plumb
    def __iter__(_next, self):
        for key in _next(self):
            if not key.startswith('h'):
                yield key


@plumbing(Adopt, Hide, Order, DefaultInit, Nodify, OdictStorage)
class Hiding(object):
    pass


class Hidden(Cases):
    """Children which are not enumerated are children."""
    name = 'hidden children'

    def cases(self):
        for size in range(1, 5):
            for keys in itertools.permutations(('h', 'a', 'hb', 'b'), size):
                for new in ('h', 'a', 'hb', 'b', 'hn', 'n'):
                    for way in WAYS:
                        for ref in keys:
                            yield (keys, new, way, ref)

    def run(self, case):
        keys, new, way, ref = case
        m = Hiding(name='m')
        nodes = {}
        for key in keys:
            nodes[key] = m[key] = Hiding()
        order = list(keys)
        shown = [k for k in keys if not k.startswith('h')]
        other = Hiding(name=new)
        out = call(m, way, other, m[ref])
        if new in keys:
            expect('inserting %r again' % new, out, ('raise', KeyError))
        else:
            expect('inserting %r' % new, out, ('any',))
            if way in ('ibefore', 'iafter'):
                at = keys.index(ref) + (way == 'iafter')
            elif not shown:
                at = len(keys)
            elif way == 'ifirst':
                at = keys.index(shown[0])
            else:
                at = keys.index(shown[-1]) + 1
            order.insert(at, new)
            nodes[new] = other
        if list(m.storage) != order:
            fail('order is %r, expected %r', list(m.storage), order)
        if list(m) != [k for k in order if not k.startswith('h')]:
            fail('enumerates %r', list(m))
        for key in order:
            if m[key] is not nodes[key] or nodes[key].parent is not m \
                    or nodes[key].name != key:
                fail('child %r is %r', key, m[key])


@plumbing(Order, DefaultInit, Nodify, OdictStorage)
class NotAdopting(object):
    pass


@plumbing(Order, Adopt, DefaultInit, Nodify, OdictStorage)
class Adopting(object):
    pass


class Elsewhere(Cases):
    """Children whose parent is another node, or none."""
    name = 'children of copies'
    KINDS = ('copy', 'copied twice', 'original', 'not adopting', 'foreign',
             'in both')

    def cases(self):
        for kind in self.KINDS:
            for size in range(1, 5):
                for way in WAYS:
                    for ref in range(size):
                        yield (kind, size, way, ref)
                for x, y in itertools.permutations(range(size), 2):
                    yield (kind, size, 'swap', x, y)

    def run(self, case):
        kind, size, way, ref = case[:4]
        cls = NotAdopting if kind == 'not adopting' else Adopting
        m = cls(name='m')
        keys = list('abcd'[:size])
        nodes = {}
        for key in keys:
            nodes[key] = cls(name=key)
            m[key] = nodes[key]
        other = None
        if kind in ('copy', 'copied twice', 'original'):
            other = m.copy()
            if kind == 'copied twice':
                other = other.copy()
            if kind != 'original':
                m, other = other, m
        elif kind == 'foreign':
            for key in keys:
                nodes[key].__parent__ = cls(name='f')
        elif kind == 'in both':
            other = cls(name='o')
            for key in keys:
                other[key] = nodes[key]
        order = list(keys)
        if way == 'swap':
            x, y = case[3:]
            expect('swap', outcome(lambda: m.swap(m[keys[x]], m[keys[y]])),
                   ('any',))
            order[x], order[y] = order[y], order[x]
        else:
            new = nodes['n'] = cls(name='n')
            expect(way, call(m, way, new, m[keys[ref]]), ('any',))
            order.insert({'ibefore': ref, 'iafter': ref + 1, 'ifirst': 0,
                          'ilast': size}[way], 'n')
            if cls is Adopting and new.parent is not m:
                fail('the new child is not adopted')
        if list(m) != order or m.keys() != order or \
                [k for k, v in m.items()] != order:
            fail('order is %r, expected %r', list(m), order)
        for key in order:
            if m[key] is not nodes[key] or nodes[key].name != key:
                fail('child %r is %r', key, m[key])
        if other is not None and list(other) != keys:
            fail('the other node changed: %r', list(other))


ALL = ['Node', 'AttributedNode', 'OrderedPlain', 'OrderedAttributed',
       'OrderedReference', 'LifecycleFull']


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for name in ALL:
        cls = getattr(zoo, name)
        # node 3 shares its name with node 0
        out.append(Ordering(name, cls, 7 if deep else 4,
                            ('a', 'b', 'c', 'a')))
        out.append(Ordering(name + '-odd', cls, 5 if deep else 3,
                            ('', u'\xe4', 'a/b', '0')))
    for cls in (RefusingOuter, RefusingInner):
        out.append(Ordering(cls.__name__, cls, 6 if deep else 4,
                            ('a', 'b', 'bad')))
    for cls in (Falsy, Equal):
        out.append(Ordering(cls.__name__, cls, 6 if deep else 3,
                            ('a', 'b', 'c', 'a')))
    for name in ('Node', 'OrderedPlain', 'LifecycleFull'):
        out.append(Ordering(
            name + '-deep', getattr(zoo, name), 8 if deep else 3,
            ('a', 'b', 'c', 'd', 'e') + (('f',) if deep else ()),
            fill=(0, 1, 2, 3), extra=deep, refused=False))
    out.append(Positions(ALL, range(0, 13) if deep else (0, 1, 2, 3, 5, 9)))
    out.append(Hidden())
    out.append(Elsewhere())
    out.append(Permute(ALL, 6 if deep else 4))
    return out
