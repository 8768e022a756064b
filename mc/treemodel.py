"""Pool-of-nodes machine: trees built, taken apart and rebuilt, with a model."""
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.utils import node_by_path
import uuid

INSERTS = ('set', 'setdefault', 'update', 'updatekw')
ORDERED = ('ifirst', 'ilast', 'ibefore', 'iafter')
REMOVES = ('del', 'pop', 'popd', 'detach', 'popitem', 'clear')


class TreeMachine(Machine):
    """Histories over a pool of nodes; each node is held at most once.

    factory: creates pool node i.  Flags choose operations and checks.
    """
    no_merge = 0
    npool = 4
    nroots = 1
    keys = ('a', 'b')
    inserts = ('set',)
    removes = ('del', 'detach')
    reference = False
    unordered = False
    refused = True        # include operations which have to fail
    uuids = False         # include uuid assignments
    clash = ()            # pairs (i, j): node i starts with the uuid of j
    check_location = True
    check_index = True
    special = ()          # pairs (i, n): node i starts with uuid n
    setup = ()            # operations applied before exploration
    spell = None          # how the nodes compute their name

    def __init__(self, name, factory, depth, **kw):
        self.name = name
        self.factory = factory
        self.depth = depth
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)

    # ---------------------------------------------------------------- state
    def fresh(self):
        s = State()
        n = self.npool
        s.nodes = [self.factory() for _ in range(n)]
        s.names = [None] * n
        for i in range(self.nroots):
            s.nodes[i].__name__ = s.names[i] = 'root%d' % i
        s.ch = [[] for _ in range(n)]
        s.held = [None] * n
        s.ptr = [None] * n
        if self.reference:
            s.uuid = [x.uuid for x in s.nodes]
            for i, num in self.special:
                s.nodes[i].uuid = s.uuid[i] = uuid.UUID(int=num)
            s.used = list(s.uuid)
            for i, j in self.clash:
                s.nodes[i].uuid = s.uuid[j]
                s.uuid[i] = s.uuid[j]
        for op in self.setup:
            self.apply(s, op)
        return s

    # ---------------------------------------------------------------- model
    def child(self, s, p, key):
        for k, c in s.ch[p]:
            if k == key:
                return c
        return None

    def subtree(self, s, i):
        out = [i]
        for _, c in s.ch[i]:
            out += self.subtree(s, c)
        return out

    def top(self, s, i):
        while s.held[i] is not None:
            i = s.held[i]
        return i

    def points_to(self, s, p, c):
        """True if following parent pointers (stale ones too) from p meets c."""
        seen = set()
        while p is not None and p not in seen:
            if p == c:
                return True
            seen.add(p)
            p = s.ptr[p]
        return False

    def collides(self, s, p, c):
        if not self.reference:
            return False
        tree = set(s.uuid[i] for i in self.subtree(s, self.top(s, p)))
        return any(s.uuid[i] in tree for i in self.subtree(s, c))

    def link(self, s, p, key, c, pos=None):
        old = self.child(s, p, key)
        if old is not None:
            i = [k for k, _ in s.ch[p]].index(key)
            s.ch[p][i] = (key, c)
            if old != c:
                s.held[old] = None
        elif pos is None:
            s.ch[p].append((key, c))
        else:
            s.ch[p].insert(pos, (key, c))
        s.held[c] = p
        s.ptr[c] = p
        s.names[c] = key

    def unlink(self, s, p, key):
        c = self.child(s, p, key)
        s.ch[p] = [(k, x) for k, x in s.ch[p] if k != key]
        s.held[c] = None
        return c

    # ----------------------------------------------------------- operations
    def ops(self, s):
        n = self.npool
        for p in range(n):
            for c in range(n):
                if c == p or s.held[c] is not None or self.points_to(s, p, c):
                    continue
                for key in self.keys:
                    for way in self.inserts:
                        if way in INSERTS:
                            yield (way, p, key, c)
                    taken = self.child(s, p, key) is not None
                    if taken and not self.refused:
                        continue
                    for way in ORDERED:
                        if way not in self.inserts:
                            continue
                        if way in ('ibefore', 'iafter'):
                            for k, _ in s.ch[p]:
                                yield (way, p, key, c, k)
                        else:
                            yield (way, p, key, c)
            for k, c in s.ch[p]:
                for way in self.removes:
                    if way not in ('popitem', 'clear'):
                        yield (way, p, k)
                yield ('again', p, k)
            if s.ch[p]:
                for way in ('popitem', 'clear'):
                    if way in self.removes:
                        yield (way, p)
            if self.refused:
                for way in ('del', 'pop', 'popd', 'detach'):
                    if way in self.removes:
                        yield (way, p, 'nokey')
            if self.uuids:
                for j in range(len(s.used)):
                    yield ('uuid', p, j)
                    if s.used[j] == s.uuid[p]:
                        # set again, another object
                        yield ('uuid', p, j, 'equal')

    def apply(self, s, op):
        way, p = op[0], op[1]
        node = s.nodes[p]
        if way in ('set', 'update', 'updatekw', 'setdefault'):
            key, c = op[2:]
            val = s.nodes[c]
            cur = self.child(s, p, key)
            if way == 'set':
                out = outcome(node.__setitem__, key, val)
            elif way == 'update':
                out = outcome(node.update, [(key, val)])
            elif way == 'updatekw':
                out = outcome(node.update, **{key: val})
            else:
                out = outcome(node.setdefault, key, val)
                if cur is not None:
                    expect('setdefault', out, ('is', s.nodes[cur]))
                    return 'present'
            if self.collides(s, p, c):
                expect('%s of colliding uuid' % way, out,
                       ('raise', (ValueError, KeyError)))
                return 'refused'
            expect('%s(node%d[%r], node%d)' % (way, p, key, c), out, ('any',))
            self.link(s, p, key, c)
            return 'replaced' if cur is not None else None
        if way in ORDERED:
            key, c = op[2:4]
            val = s.nodes[c]
            val.__name__ = key
            s.names[c] = key
            keys = [k for k, _ in s.ch[p]]
            if way == 'ifirst':
                out = outcome(node.insertfirst, val)
                pos = 0
            elif way == 'ilast':
                out = outcome(node.insertlast, val)
                pos = len(keys)
            else:
                ref = s.nodes[self.child(s, p, op[4])]
                pos = keys.index(op[4]) + (way == 'iafter')
                out = outcome(node.insertbefore if way == 'ibefore'
                              else node.insertafter, val, ref)
            if key in keys or self.collides(s, p, c):
                expect('%s refused' % way, out,
                       ('raise', (ValueError, KeyError)))
                return 'refused'
            expect('%s(node%d, %r, node%d)' % (way, p, key, c), out, ('any',))
            self.link(s, p, key, c, pos)
            return
        if way == 'again':
            key = op[2]
            c = self.child(s, p, key)
            expect('node[%r] = node[%r]' % (key, key),
                   outcome(node.__setitem__, key, s.nodes[c]), ('any',))
            s.ptr[c] = p
            s.names[c] = key
            return
        if way in ('del', 'pop', 'popd', 'detach'):
            key = op[2]
            c = self.child(s, p, key)
            if way == 'del':
                out = outcome(node.__delitem__, key)
            elif way == 'pop':
                out = outcome(node.pop, key)
            elif way == 'popd':
                out = outcome(node.pop, key, s)
            else:
                out = outcome(node.detach, key)
            if c is None:
                expect('%s(missing)' % way, out,
                       ('is', s) if way == 'popd' else ('raise', KeyError))
                return 'missing'
            expect('node%d %s(%r)' % (p, way, key), out,
                   ('any',) if way == 'del' else ('is', s.nodes[c]))
            self.unlink(s, p, key)
            if way == 'detach':
                # whether detaching resets the parent is left open
                s.ptr[c] = p if s.nodes[c].__parent__ is not None else None
            return
        if way == 'popitem':
            out = outcome(node.popitem)
            expect('popitem', out, ('any',))
            key, val = out[1]
            c = self.child(s, p, key)
            if c is None or val is not s.nodes[c] or (
                    not self.unordered and s.ch[p][-1][0] != key):
                fail('popitem returned %r, children %r', out[1], s.ch[p])
            self.unlink(s, p, key)
            return
        if way == 'clear':
            expect('clear', outcome(node.clear), ('any',))
            for k, _ in list(s.ch[p]):
                self.unlink(s, p, k)
            return
        if way == 'uuid':
            new = s.used[op[2]]
            top = self.top(s, p)
            clash = any(s.uuid[i] == new for i in self.subtree(s, top)
                        if i != p)
            if len(op) > 3:
                new = uuid.UUID(str(new))
            out = outcome(setattr, node, 'uuid', new)
            if clash:
                expect('assigning a used uuid', out, ('raise', ValueError))
                return 'refused'
            expect('assigning uuid', out, ('any',))
            s.uuid[p] = new
            return
        raise AssertionError(op)

    # --------------------------------------------------------------- checks
    def check(self, s):
        self.check_contents(s)
        if self.check_location:
            self.location(s)
        if self.reference and self.check_index:
            self.index(s)

    def check_contents(self, s):
        for p, node in enumerate(s.nodes):
            want = s.ch[p]
            ignored = getattr(node, 'plain_keys', ())
            got = [(k, node[k]) for k in node if k not in ignored]
            wantv = [(k, s.nodes[c]) for k, c in want]
            if self.unordered:
                got.sort(key=lambda kv: kv[0])
                wantv.sort(key=lambda kv: kv[0])
            if len(got) != len(wantv) or any(
                    a[0] != b[0] or a[1] is not b[1]
                    for a, b in zip(got, wantv)):
                fail('node%d holds %r, expected %r', p, got, wantv)

    def location(self, s):
        for i, node in enumerate(s.nodes):
            p = s.held[i]
            if p is None:
                continue
            if node.name != self.shown(s.names[i]):
                fail('node%d is stored under %r but named %r', i, s.names[i],
                     node.name)
            if node.__name__ != s.names[i]:
                fail('node%d has __name__ %r, name %r', i, node.__name__,
                     node.name)
            if node.parent is not s.nodes[p] \
                    or node.__parent__ is not s.nodes[p]:
                fail('node%d is held by node%d but has parent %r', i, p,
                     node.parent)
        for t, top in enumerate(s.nodes):
            if s.held[t] is not None or s.ptr[t] is not None:
                continue
            if top.parent is not None:
                fail('node%d was never removed but has parent %r', t,
                     top.parent)
            self.paths(s, t, t, [s.names[t]])

    def shown(self, name):
        return name if self.spell is None else self.spell(name)

    def paths(self, s, t, i, path):
        node, top = s.nodes[i], s.nodes[t]
        want = [self.shown(name) for name in path]
        for _ in range(2):
            got = node.path
            if got != want:
                fail('node%d has path %r, expected %r', i, got, want)
            # the list belongs to the caller
            got.append('x')
        if node.root is not top:
            fail('node%d has root %r, expected node%d', i, node.root, t)
        rel = path[1:]
        forms = [list(rel), tuple(rel)]
        if all(rel) and all(isinstance(k, str) for k in rel):
            forms += ['/'.join(rel), '/' + '/'.join(rel), '/'.join(rel) + '/']
        for form in forms:
            got = outcome(node_by_path, top, form)
            if got[0] != 'ok' or got[1] is not node:
                fail('node_by_path(root, %r) gives %r, expected node%d', form,
                     got[1], i)
            if isinstance(form, list) and form != rel:
                fail('node_by_path changed the path given to %r', form)
        if outcome(node_by_path, node, rel + ['nokey'])[0] == 'ok':
            fail('node_by_path finds a missing child')
        for k, c in s.ch[i]:
            self.paths(s, t, c, path + [k])

    def index(self, s):
        for t in range(self.npool):
            if s.held[t] is not None:
                continue
            members = self.subtree(s, t)
            by_uuid = dict((s.uuid[i], s.nodes[i]) for i in members)
            for i in members:
                node = s.nodes[i]
                if node.uuid != s.uuid[i]:
                    fail('node%d has uuid %r, expected %r', i, node.uuid,
                         s.uuid[i])
                index = node.index
                for u in s.used:
                    want = by_uuid.get(u)
                    if node.node(u) is not want:
                        fail('node%d.node(uuid %d) is %r, expected %r', i,
                             s.used.index(u), node.node(u), want)
                    if index.get(u) is not want:
                        fail('node%d.index.get(uuid %d) is %r, expected %r',
                             i, s.used.index(u), index.get(u), want)
                    if index.get(u, s) is not (s if want is None else want):
                        fail('node%d.index.get with default', i)
                    if (u in index) is not (want is not None):
                        fail('node%d: uuid %d in index: %r', i,
                             s.used.index(u), u in index)
                    out = outcome(lambda: index[u])
                    expect('index[uuid %d]' % s.used.index(u), out,
                           ('raise', KeyError) if want is None
                           else ('is', want))
