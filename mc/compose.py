"""Classes composed of behaviors which can work together."""
from mc import env  # noqa: F401
from node import behaviors
from plumber import PlumbingCollision
from plumber import plumbing
import itertools

OUTER = ['Adopt', 'NodeChildValidate', 'Nodespaces', 'Attributes',
         'Reference', 'Order', 'AsAttrAccess', 'DefaultInit', 'Lifecycle',
         'AttributesLifecycle', 'UnicodeAware', 'UUIDAware', 'Events',
         'Cache', 'Invalidate', 'VolatileStorageInvalidate', 'Fallback',
         'GetattrChildren', 'ChildFactory', 'FixedChildren', 'Alias']
NEEDS = {'AttributesLifecycle': ['Attributes', 'Nodespaces'],
         'Attributes': ['Nodespaces'],
         'Cache': ['Invalidate']}
REFUSED = (AttributeError, TypeError, PlumbingCollision)


def selections(length, exclude=()):
    """Sets of behaviors and a storage."""
    names = [n for n in OUTER if n not in exclude]
    for n in range(1, length + 1):
        for seq in itertools.combinations(names, n):
            for storage in ('DictStorage', 'OdictStorage'):
                yield (seq, storage)


def whole(seq, storage):
    """All behaviors of a composition, outermost first."""
    seq = list(seq)
    for name in list(seq):
        for need in NEEDS.get(name, []):
            if need not in seq:
                seq.append(need)
    if 'Alias' in seq:
        seq.remove('Alias')
        seq.append('Alias')
    if 'DefaultInit' not in seq:
        seq.append('DefaultInit')
    return seq + ['Nodify', storage]


def needed(names, factories=()):
    """Declarations behaviors cannot do without."""
    return {'fixed_children_factories': list(factories)} \
        if 'FixedChildren' in names else {}


def compose(names, bases=(object,), factories=()):
    return plumbing(*[getattr(behaviors, n) for n in names])(
        type('Composed', bases, needed(names, factories)))
