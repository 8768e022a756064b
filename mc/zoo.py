"""Node classes the checks explore: the stock classes and compositions."""
from mc import env  # noqa: F401
from node.base import AbstractNode
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import FullMapping
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import Storage
from node.behaviors import UUIDAware
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from node.testing.env import MyNode
from node.utils import UNSET
from node.utils import instance_property
from odict import odict
from plumber import default
from plumber import plumbing


class OwnNode(AbstractNode):
    """AbstractNode with hand written primitives."""

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self.data = {}

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, val):
        self.data[key] = val

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)


@plumbing(Adopt, Nodify)
class OwnAdopting(object):
    """Hand written primitives below Adopt."""

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self.data = odict()

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, val):
        self.data[key] = val

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)


@plumbing(FullMapping)
class OwnMapping(object):
    """FullMapping defaults over four hand written primitives."""

    def __init__(self):
        self.data = odict()

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, val):
        self.data[key] = val

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)


class Missing(KeyError):
    """A backend's own way to say that a key is missing."""


class Strict(odict):

    def __getitem__(self, key):
        try:
            return odict.__getitem__(self, key)
        except KeyError:
            raise Missing('no such item')

    def __delitem__(self, key):
        try:
            odict.__delitem__(self, key)
        except KeyError:
            raise Missing('no such item')


@plumbing(FullMapping)
class OwnMissing(OwnMapping):
    """Primitives raising a KeyError of their own."""

    def __init__(self):
        self.data = Strict()


@plumbing(Adopt, Cache, Invalidate, DefaultInit, Nodify, Storage)
class StorageMissing(object):
    """A storage raising a KeyError of its own."""

    @instance_property
    def storage(self):
        return Strict()


@plumbing(FullMapping, DictStorage)
class DictMapping(object):
    pass


@plumbing(FullMapping, OdictStorage)
class OdictMapping(object):
    pass


@plumbing(DefaultInit, Nodify, DictStorage)
class DictValues(object):
    """Values of any kind, dict storage."""


@plumbing(DefaultInit, Nodify, OdictStorage)
class OdictValues(object):
    """Values of any kind, odict storage."""


@plumbing(NodeChildValidate, Adopt, DefaultInit, Nodify, OdictStorage)
class AllowingValues(object):
    allow_non_node_childs = True


@plumbing(Adopt, Nodify, DefaultInit)
class SharedStorageBase(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Order, DefaultInit,
          Nodify, OdictStorage)
class OrderedAttributed(object):
    pass


@plumbing(NodeChildValidate, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class OrderedPlain(object):
    pass


@plumbing(NodeChildValidate, Adopt, Order, Reference, DefaultInit, Nodify,
          OdictStorage)
class OrderedReference(object):
    pass


@plumbing(NodeChildValidate, Adopt, Reference, DefaultInit, Nodify,
          DictStorage)
class DictReference(object):
    pass


@plumbing(Reference, NodeChildValidate, Adopt, DefaultInit, Nodify,
          OdictStorage)
class OuterReference(object):
    pass


@plumbing(NodeChildValidate, Adopt, Lifecycle, DefaultInit, Nodify,
          OdictStorage)
class LifecycleNode(object):
    pass


@plumbing(Lifecycle, NodeChildValidate, Nodespaces, Adopt, Attributes,
          Reference, Order, AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class LifecycleFull(object):
    pass


@plumbing(Adopt, UnicodeAware, DefaultInit, Nodify, OdictStorage)
class UnicodeNode(object):
    pass


@plumbing(Adopt, Fallback, DefaultInit, Nodify, OdictStorage)
class FallbackNode(object):
    pass


@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class UnaliasedNode(object):
    pass


@plumbing(Adopt, Cache, Invalidate, DefaultInit, Nodify, OdictStorage)
class CachedNode(object):
    pass


@plumbing(NodeChildValidate, Adopt, Cache, VolatileStorageInvalidate,
          Lifecycle, Reference, DefaultInit, Nodify, OdictStorage)
class CachedFull(object):
    pass


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class UUIDNode(object):
    pass


@plumbing(NodeChildValidate, GetattrChildren, Adopt, DefaultInit, Nodify,
          OdictStorage)
class GetattrNode(object):
    pass


@plumbing(NodeChildValidate, Adopt, Events, DefaultInit, Nodify, DictStorage)
class EventsNode(object):
    __events__ = ['changed']


class SubNode(Node):
    """Plain subclass of a stock class."""


class SubOrdered(OrderedNode):
    """Subclass overriding a write method through super."""

    def __setitem__(self, key, val):
        super(SubOrdered, self).__setitem__(key, val)


def attrs_of(cls):
    def factory():
        return cls(name='owner').attrs
    return factory


# name -> (factory, child factory or None for any value, ordered)
MAPPINGS = odict([
    ('BaseNode', (BaseNode, BaseNode, False)),
    ('OrderedNode', (OrderedNode, OrderedNode, True)),
    ('Node', (Node, Node, True)),
    ('AttributedNode', (AttributedNode, AttributedNode, True)),
    ('MyNode', (MyNode, MyNode, True)),
    ('SubNode', (SubNode, SubNode, True)),
    ('SubOrdered', (SubOrdered, SubOrdered, True)),
    ('OwnNode', (OwnNode, OwnNode, False)),
    ('OwnAdopting', (OwnAdopting, None, True)),
    ('OwnMapping', (OwnMapping, None, True)),
    ('OwnMissing', (OwnMissing, None, True)),
    ('StorageMissing', (StorageMissing, None, True)),
    ('DictMapping', (DictMapping, None, False)),
    ('OdictMapping', (OdictMapping, None, True)),
    ('DictValues', (DictValues, None, False)),
    ('OdictValues', (OdictValues, None, True)),
    ('AllowingValues', (AllowingValues, None, True)),
    ('attrs', (attrs_of(Node), None, True)),
    ('OrderedAttributed', (OrderedAttributed, OrderedAttributed, True)),
    ('OrderedReference', (OrderedReference, OrderedReference, True)),
    ('DictReference', (DictReference, DictReference, False)),
    ('OuterReference', (OuterReference, OuterReference, True)),
    ('LifecycleNode', (LifecycleNode, LifecycleNode, True)),
    ('LifecycleFull', (LifecycleFull, LifecycleFull, True)),
    ('UnicodeNode', (UnicodeNode, None, True)),
    ('FallbackNode', (FallbackNode, None, True)),
    ('UnaliasedNode', (UnaliasedNode, None, True)),
    ('CachedNode', (CachedNode, None, True)),
    ('CachedFull', (CachedFull, CachedFull, True)),
    ('UUIDNode', (UUIDNode, None, True)),
    ('GetattrNode', (GetattrNode, GetattrNode, True)),
    ('EventsNode', (EventsNode, EventsNode, False)),
])
