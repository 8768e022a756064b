"""C07: no two nodes of one tree share a uuid."""
import uuid
from mc import shapes
from mc.checks.c06 import REFERENCING
from mc.checks.c06 import check_index
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from mc.treemodel import INSERTS
from mc.treemodel import ORDERED
from mc.treemodel import TreeMachine
from node.interfaces import INode

TECHNIQUE = ('enumeration of all pairs of tree shapes x colliding node pairs x '
             'write paths, and explicit-state BFS over histories with equal '
             'uuids, on the real classes')
LEVEL_NOTE = (
    'Every shape of target up to 4 and of inserted subtree up to 3 nodes, '
    'every colliding pair, every insertion point and path; every history up '
    'to the depth over pools in which nodes start with equal uuids or get '
    'them assigned; both trees compared completely before and after. Trusts '
    'the tree model.')
ASSUMPTIONS = ['uuids are not None']

COLLISION = (ValueError, KeyError)


def snapshot(*trees):
    out = []
    for nodes in trees:
        for n in nodes:
            out.append((n.name, id(n.parent), n.uuid,
                        [(k, id(n[k])) for k in n],
                        [id(n.node(o.uuid)) for t in trees for o in t],
                        [o.uuid in n.index for t in trees for o in t]))
    return out


def unchanged(before, after, what):
    for a, b in zip(before, after):
        if a != b:
            fail('%s was refused but changed %r to %r', what, a, b)


class Collide(Cases):
    name = 'colliding-subtrees'

    def __init__(self, classes, ntarget, nsub, ways):
        self.classes = classes
        self.targets = shapes.upto(ntarget)
        self.subs = shapes.upto(nsub)
        self.ways = ways

    def cases(self):
        for name in self.classes:
            cls = REFERENCING[name]
            for target in self.targets:
                for sub in self.subs:
                    for i in range(len(target)):
                        for j in range(len(sub)):
                            for at in range(len(target)):
                                for way in self.ways:
                                    if way in ORDERED and not hasattr(
                                            cls, 'insertfirst'):
                                        continue
                                    yield (name, target, sub, i, j, at, way)

    def run(self, case):
        name, target, sub, i, j, at, way = case
        cls = REFERENCING[name]
        nodes = shapes.build(cls, target)
        more = shapes.build_up(cls, sub, name='new')
        if (i + j + at) % 2:
            # all bits cleared
            nodes[i].uuid = uuid.UUID(int=0)
        more[j].uuid = nodes[i].uuid
        place = nodes[at]
        kids = [place[k] for k in place if INode.providedBy(place[k])]
        key = 'new'
        if way == 'replace':
            if not kids:
                return 'skip'
            key = kids[0].name
            gone = shapes.below(target, [
                n for n, x in enumerate(nodes) if x is kids[0]][0])
        before = snapshot(nodes, more)
        what = '%s of a subtree with a used uuid' % way
        if way in ('set', 'replace'):
            out = outcome(place.__setitem__, key, more[0])
        elif way == 'update':
            out = outcome(place.update, [(key, more[0])])
        elif way == 'updatekw':
            out = outcome(place.update, **{key: more[0]})
        elif way == 'setdefault':
            out = outcome(place.setdefault, key, more[0])
        elif way == 'attraccess':
            if not hasattr(place, 'as_attribute_access'):
                return 'skip'
            out = outcome(setattr, place.as_attribute_access(), key, more[0])
        elif way == 'ifirst':
            out = outcome(place.insertfirst, more[0])
        elif way == 'ilast':
            out = outcome(place.insertlast, more[0])
        else:
            if not kids:
                return 'skip'
            out = outcome(place.insertbefore if way == 'ibefore'
                          else place.insertafter, more[0], kids[-1])
        if way == 'replace' and i in gone:
            # the colliding node is the one replaced: both are defensible,
            # but no collision may result
            if out[0] == 'ok':
                rest = [n for k, n in enumerate(nodes) if k not in gone]
                check_index(rest + more, [], 'replaced collision')
                return 'replaced'
        expect(what, out, ('raise', COLLISION if way in ORDERED
                           else ValueError))
        unchanged(before, snapshot(nodes, more), what)
        # after giving it a uuid of its own it can be inserted
        more[j].uuid = uuid.UUID(int=99)
        if way in ORDERED:
            more[0].__name__ = 'new'
            place.insertlast(more[0])
        else:
            place['new'] = more[0]
        check_index(nodes + more, [], 'after resolving the collision')
        return 'refused'


class Assign(Cases):
    """Assigning any node the uuid of any other node of its tree."""
    name = 'assignments'

    def __init__(self, classes, n):
        self.classes = classes
        self.shapes = shapes.upto(n)

    def cases(self):
        for name in self.classes:
            for shape in self.shapes:
                for i in range(len(shape)):
                    for j in range(len(shape)):
                        for how in ('down', 'up', 'moved', 'int'):
                            yield (name, shape, i, j, how)

    def run(self, case):
        name, shape, i, j, how = case
        cls = REFERENCING[name]
        nodes = (shapes.build_up if how == 'up' else shapes.build)(cls, shape)
        if how == 'moved':
            top = cls(name='top')
            top['sub'] = nodes[0]
            top.detach('sub')
            other = cls(name='other')
            other['sub'] = nodes[0]
            nodes.append(other)
        if (i + j) % 2:
            nodes[j].uuid = uuid.UUID(int=0)
        before = snapshot(nodes)
        val = nodes[j].uuid
        out = outcome(setattr, nodes[i], 'uuid', uuid.UUID(int=int(val)))
        if i == j:
            expect('own uuid', out, ('any',))
            unchanged(before, snapshot(nodes), 'own uuid')
            return 'same'
        expect('assigning the uuid of node %d to node %d' % (j, i), out,
               ('raise', ValueError))
        unchanged(before, snapshot(nodes), 'assignment')
        check_index(nodes, [], 'assignment refused')
        return 'refused'


class NoCollision(Cases):
    """Replacing and re-inserting are no collisions."""
    name = 'no-collision'

    def __init__(self, classes, n):
        self.classes = classes
        self.shapes = shapes.upto(n, 2)

    def cases(self):
        for name in self.classes:
            for shape in self.shapes:
                for i in range(1, len(shape)):
                    for way in ('overwrite', 'del', 'pop', 'detach', 'clear',
                                'again', 'takeover', 'takeover-set'):
                        yield (name, shape, i, way)

    def run(self, case):
        name, shape, i, way = case
        cls = REFERENCING[name]
        nodes = shapes.build(cls, shape)
        parent = nodes[shape[i]]
        key = shapes.key(i)
        node = nodes[i]
        part = [nodes[j] for j in shapes.below(shape, i)]
        rest = [n for n in nodes if all(n is not x for x in part)]
        new = cls()
        new['x'] = cls()
        mine = [new, new['x']]
        if way == 'again':
            expect('set in place again', outcome(
                parent.__setitem__, key, node), ('any',))
            check_index(nodes, [], 'set again')
            return way
        if way == 'overwrite':
            expect('overwrite', outcome(parent.__setitem__, key, new),
                   ('any',))
            check_index(rest + mine, part, way)
            check_index(part, rest + mine, way)
            # bring the old one back
            expect('overwrite back', outcome(parent.__setitem__, key, node),
                   ('any',))
            check_index(nodes, mine, way)
            check_index(mine, nodes, way)
            return way
        if way == 'del':
            del parent[key]
        elif way == 'pop':
            parent.pop(key)
        elif way == 'clear':
            if len(shapes.children(shape, shape[i])) > 1:
                return 'skip'
            parent.clear()
        else:
            parent.detach(key)
        if way.startswith('takeover'):
            # uuid of the removed node becomes free in the old tree
            if way == 'takeover':
                rest[-1].uuid = node.uuid
            else:
                new.uuid = node.uuid
                rest[-1]['new'] = new
                rest += mine
            check_index(rest, [], way)
            before = snapshot(rest, part)
            out = outcome(parent.__setitem__, key, node)
            expect('re-insert after its uuid was taken', out,
                   ('raise', ValueError))
            unchanged(before, snapshot(rest, part), way)
            return way
        for target in rest:
            expect('re-insertion', outcome(target.__setitem__, 'back', node),
                   ('any',))
            check_index(nodes, [], 're-inserted after %s' % way)
            target.detach('back')
        expect('re-insertion', outcome(parent.__setitem__, key, node),
               ('any',))
        check_index(nodes, [], 're-inserted after %s' % way)
        return way


def tasks(tier):
    deep = tier == 'thorough'
    names = sorted(REFERENCING)
    ways = ('set', 'replace', 'update', 'updatekw', 'setdefault',
            'attraccess') + ORDERED
    out = [Collide(names if deep else ['Node', 'DictReference'],
                   4 if deep else 3, 3, ways),
           Assign(names, 4 if deep else 3), NoCollision(names, 4)]
    for n in (1, 2):
        for task in (Assign(names, 3), NoCollision(names, 3)):
            out.append(shapes.oddly(task, n))
    if not deep:
        rest = Collide(names, 2, 2, ways)
        rest.name = 'colliding-small'
        out.append(rest)
        wide = Collide(['Node'], 1, 1, ('set', 'replace', 'ilast'))
        wide.name = 'colliding-big'
        wide.targets = [shapes.chain(5), shapes.star(6)]
        wide.subs = [shapes.chain(4), shapes.star(4)]
        out.append(wide)
    for name in ('Node', 'DictReference', 'LifecycleFull', 'CachedFull',
                 'OuterReference', 'RefMixed'):
        cls = REFERENCING[name]
        order = hasattr(cls, 'insertfirst')
        common = dict(reference=True, check_location=False, check_index=False,
                      unordered=name == 'DictReference')
        out.append(TreeMachine(
            name + '-clash', cls, 6 if deep else 4, npool=4,
            keys=('a', 'b') if deep else ('a',),
            inserts=('set',) + (('ifirst', 'iafter') if order else ()),
            removes=('del', 'detach'), clash=((3, 0), (2, 1)), **common))
        out.append(TreeMachine(
            name + '-assign', cls, 5 if deep else 4, npool=3, keys=('a',),
            inserts=('set',), removes=('del', 'detach'), uuids=True,
            clash=((2, 1),), **common))
    return out
