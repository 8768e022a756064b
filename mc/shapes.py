"""All rooted ordered trees up to a size, as parent vectors in preorder."""
import contextlib
import copy


def shapes(n):
    """Every parent vector (p[0] = -1, preorder) of a tree with n nodes."""
    out = []

    def grow(vec, path):
        # path: indices of the rightmost branch, root first
        if len(vec) == n:
            out.append(tuple(vec))
            return
        for d in range(len(path)):
            new = len(vec)
            grow(vec + [path[d]], path[:d + 1] + [new])
    grow([-1], [0])
    return out


def upto(n, start=1):
    out = []
    for i in range(start, n + 1):
        out += shapes(i)
    return out


def chain(n):
    return tuple(range(-1, n - 1))


def star(n):
    return (-1,) + (0,) * (n - 1)


# keys which look like nothing, like something else or like each other
ODD = ('k0', '', ' ', '0', u'\xfc', 'a.b', 'keys', 'None', 'a/b', 'k0 ')
KEYS = []


def odd(n):
    """Odd keys, node n gets the empty one; none at all for 0."""
    if not n:
        return ()
    at = ODD.index('')
    return tuple(ODD[(i - n + at) % len(ODD)] for i in range(len(ODD)))


@contextlib.contextmanager
def keyed(keys):
    """Other keys for the time of a block."""
    KEYS[:] = keys
    try:
        yield
    finally:
        KEYS[:] = []


def key(i):
    return KEYS[i] if KEYS else 'k%d' % i


def build(factory, shape, way=None, name='root'):
    """Nodes of a tree built top down; node i is stored under key(i)."""
    nodes = []
    for i, p in enumerate(shape):
        node = factory()
        nodes.append(node)
        if p < 0:
            node.__name__ = name
        else:
            nodes[p][key(i)] = node
    return nodes


def build_up(factory, shape, name='root'):
    """Same tree, assembled bottom up from finished subtrees."""
    nodes = [factory() for _ in shape]
    nodes[0].__name__ = name
    kids = [children(shape, i) for i in range(len(shape))]
    for i in reversed(range(len(shape))):
        for c in kids[i]:
            nodes[i][key(c)] = nodes[c]
    return nodes


def children(shape, i):
    return [j for j, p in enumerate(shape) if p == i]


def below(shape, i):
    """Indices of the subtree at i, preorder."""
    out = [i]
    for c in children(shape, i):
        out += below(shape, c)
    return out


def depth(shape, i):
    d = 0
    while shape[i] >= 0:
        i = shape[i]
        d += 1
    return d


def pathto(shape, i):
    out = []
    while i >= 0:
        out.append(i)
        i = shape[i]
    return out[::-1]


def oddly(task, n):
    """The task again, with odd keys."""
    out = copy.copy(task)
    out.name = '%s odd keys %d' % (task.name, n)

    def run(case):
        with keyed(odd(n)):
            return task.run(case)
    out.run = run
    return out
