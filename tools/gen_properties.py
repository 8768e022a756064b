#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

H = ('histories',)
B = 'src/node/behaviors/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': list(files),
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        }})


P('C01', 'Every node answers like the reference dictionary with the same history',
  'After any sequence of item writes, overwrites, deletes, update, setdefault, pop, popitem and clear, every stock '
  'node type and every composition of the mapping and storage behaviors returns the keys, identical values (falsy ones '
  'included), length, membership, defaults and KeyErrors that a plain dict with the same history returns, and all '
  'enumeration views (iteration, keys/values/items and their iterator forms) agree. Odict backed nodes enumerate in '
  'insertion order, keep the position on overwrite, and popitem removes the last item.',
  ['histories', 'inputs', 'configurations'],
  'all operation sequences up to a depth over colliding keys, falsy/odd values and every call form, for all stock '
  'classes and behavior compositions',
  'The tests run one fixed script (FullMappingTester) on two keys per class; order, overwrite, falsy values and '
  'interleavings of deletes and re-inserts are not quantified over.',
  [B + 'mapping.py', B + 'storage.py', 'src/node/base.py', B + 'nodify.py'],
  [('mapping defaults built from __getitem__/__setitem__/__delitem__/__iter__', B + 'mapping.py'),
   ('storage delegation', B + 'storage.py')],
  ['return values and exceptions of every mapping method'])

P('C02', 'Name, parent, path and root always agree with a node\'s place in the tree',
  'After any history of inserting, overwriting, deleting, popping, detaching, re-inserting and moving nodes and whole '
  'subtrees (each node being held at one place at a time), every node held by an adopting node has the key it is stored '
  'under as its name and the holding node as its parent. In a tree whose topmost node has no parent, each node\'s path lists '
  'the names from the topmost node down to it, its root is that topmost node, and following the names from there '
  '(node_by_path, list or string form) reaches the same node.',
  ['histories', 'configurations'],
  'all histories up to a depth over a pool of nodes and all insertion/removal paths, for every adopting node class',
  'Tests assert location attributes after one or two insertions; moves, overwrites and nested re-insertions through '
  'update/setdefault/order operations are not explored.',
  [B + 'common.py', B + 'nodify.py', 'src/node/utils.py', B + 'order.py'],
  [('Adopt sets __name__/__parent__ on write', B + 'common.py'),
   ('path/root via LocationIterator', B + 'nodify.py'), ('node_by_path', 'src/node/utils.py')],
  ['node.name, node.parent, node.path, node.root, node_by_path'])

P('C03', 'A refused insertion leaves neither container nor child changed',
  'When inserting a child through any write path (item assignment, update, setdefault, insertbefore/after/first/last) '
  'is refused by child validation, uuid collision, the order or aliasing rules, or an exception of any kind raised by '
  'the storage, the exception propagates and the child keeps its former name and parent. The container keeps its keys, '
  'order and values, the uuid index still resolves exactly the nodes it did before, and a later valid insertion of the '
  'same child succeeds.',
  ['fault_sequences', 'histories', 'inputs'],
  'all combinations of refusing layer, exception type, write path, behavior composition and prior state',
  'Tests raise one KeyError from one storage; other exception types, write paths and follow-up operations are not covered.',
  [B + 'common.py', B + 'reference.py', B + 'order.py', B + 'alias.py'],
  [('Adopt saves and restores name and parent', B + 'common.py'),
   ('Reference checks the index before indexing', B + 'reference.py'),
   ('Order validates before inserting', B + 'order.py')],
  ['child.name/parent, container items, node(uuid)'])

P('C04', 'Containers restricted to nodes never hold anything else',
  'Unless non-node children are explicitly allowed, a validating node refuses every value that is not a node and every '
  'class with ValueError through item assignment, update and setdefault, and through no write path, order insertion '
  'included, does a non-node or a class end up among its children. With non-node children allowed, any value is stored and '
  'returned unchanged.',
  ['inputs', 'histories', 'configurations'],
  'all write paths x all kinds of values (nodes, node classes, other classes, instances, falsy values, look-alikes) x '
  'the node classes with and without the permission, at every reachable state up to a depth',
  'Tests try item assignment with a class and a plain object only.',
  [B + 'common.py', B + 'order.py', 'src/node/base.py'],
  [('NodeChildValidate', B + 'common.py')],
  ['exceptions, container values'])

P('C05', 'Order operations place children exactly where requested',
  'In an ordered node, insertbefore and insertafter place the new child directly before or after the reference child, '
  'insertfirst and insertlast at the ends, and swap exchanges exactly two children, all other children keeping their '
  'relative order, after any prior history. The order seen by every enumeration view is the same, and each child stays '
  'reachable under its own name with the correct parent. An operation with an unnamed or already contained new node (or '
  'taken name), or a reference node that names no child, is refused with ValueError or KeyError and changes nothing.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of order operations, plain inserts, overwrites and deletes over up to 4-5 children, with valid and '
  'invalid arguments, with and without reference/attribute/lifecycle behaviors',
  'Tests apply a handful of operations on a 3-child node; positions at both ends, empty nodes, adjacent swaps and '
  'sequences after removals multiply beyond any sample.',
  [B + 'order.py'],
  [('insertion via storage then adoption', B + 'order.py')],
  ['keys/values/items order, child names'])

P('C06', 'The uuid index resolves exactly the nodes of the current tree',
  'In a tree of referencing nodes, after any history of inserting, overwriting, deleting, detaching, re-inserting and '
  'moving nodes and whole subtrees or re-assigning uuids, looking up a uuid from any node of the tree yields exactly '
  'that node if it is in the tree, and nothing otherwise. Node lookup and index access (item, get, membership) agree, and a '
  'removed or detached subtree resolves exactly its own nodes and can be inserted again anywhere.',
  ['histories'],
  'all histories up to a depth over a pool of nodes with nested subtrees, every node of every resulting tree queried for '
  'every uuid ever used',
  'Tests check the index after single insertions and one detach; stale or missing entries only appear after sequences '
  'of overwriting, moving and detaching nested subtrees.',
  [B + 'reference.py'],
  [('shared index dict per tree', B + 'reference.py'), ('detach re-indexes the subtree', B + 'reference.py')],
  ['node.node(uuid), node.index'],
  [('index', 'uuid to node mapping shared by all nodes of a tree', B + 'reference.py')])

P('C07', 'Two nodes of one tree never share a uuid',
  'Assigning a node a uuid that another node of its tree holds, or inserting a node or subtree in which any node has a '
  'uuid already held in the target tree, whatever the shape of either side, is refused (ValueError, or KeyError for order '
  'insertions) and both trees stay exactly as they were. Overwriting a child by a new node and re-inserting a removed '
  'node are not collisions and succeed.',
  ['histories', 'inputs'],
  'all collision positions (root, child, grandchild on either side) x insertion paths x subtree shapes, in all '
  'reachable states up to a depth',
  'Tests check one collision of one shape.',
  [B + 'reference.py', B + 'order.py'],
  [('collision checks on uuid assignment and insertion', B + 'reference.py')],
  ['exceptions, node.node(uuid), tree contents'])

P('C08', 'Detach removes exactly one subtree and hands it back intact',
  'Detaching a child removes it, and only it, from its parent (a missing key raises KeyError and changes nothing) and '
  'returns the very child with its own descendants, attributes and values unchanged. The detached subtree is afterwards '
  'independent of its former tree: changes on either side do not show on the other, and it can be inserted at any '
  'other place, where it is adopted.',
  ['histories', 'configurations'],
  'all histories of detach/insert/modify over two trees up to a depth, for every stock node class',
  'Tests detach one child once.',
  [B + 'nodify.py', B + 'reference.py', B + 'lifecycle.py'],
  [('detach', B + 'nodify.py')],
  ['tree contents, attrs, uuid lookup before and after'])

P('C09', 'Nodespaces stay separate from children',
  'Keys that begin and end with two underscores address nodespaces: a node stored under such a key is reachable under '
  'exactly that key both on the node and in its nodespaces, carries that key as name and the node as parent, and deleting '
  'it removes only that nodespace. No nodespace operation ever shows in, adds to, removes from or reorders the children, '
  'no child operation touches a nodespace, __children__ is the node itself, and nodespaces of different nodes are unrelated. '
  'All other keys, non-string ones included, are ordinary child keys.',
  ['histories', 'inputs'],
  'all sequences of item operations over nodespace keys, child keys and near-miss keys on two nodes up to a depth',
  'Tests set a single nodespace on a single node.',
  [B + 'nodespace.py'],
  [('key pattern routing', B + 'nodespace.py')],
  ['nodespaces, item access, enumeration'])

P('C10', 'Attributes are a private mapping of each node, separate from its children',
  'The attributes of a node are one stable mapping per node, named __attrs__ with the node as parent, that follows the full '
  'ordered mapping contract for arbitrary values. Attribute operations never change the children of any node or another '
  'node\'s attributes, and child operations, detach and moves never change attributes. With attribute access enabled, '
  'attributes can be read, set and deleted in both item and attribute style with the same results.',
  ['histories', 'configurations'],
  'all sequences of attribute and child operations on a tree of nodes up to a depth, with both access styles',
  'Tests set single attributes on a single node.',
  [B + 'attributes.py', B + 'nodespace.py', 'src/node/utils.py'],
  [('attrs lives in the __attrs__ nodespace', B + 'attributes.py')],
  ['node.attrs'])

P('C11', 'Aliasers translate keys losslessly in both directions',
  'For every aliaser and chain of aliasers, unaliasing an alias yields the original key and aliasing an unaliased key '
  'yields the original alias, for every string including the empty one and for every prefix and suffix including empty '
  'and None. Prefix and suffix aliasers prepend or append exactly their affix and refuse a key that lacks it with KeyError; a '
  'strict dictionary aliaser refuses unlisted keys in both directions with KeyError, a non-strict one passes them through; '
  'a chain applies its members in order for aliasing and in reverse order for unaliasing. Dictionaries are meant to be '
  'one-to-one, and keys a non-strict one passes through not to be listed on its other side.',
  ['inputs', 'configurations'],
  'all strings up to a length over a small alphabet x all affixes x all chains up to length 3 x all small dictionaries',
  'Tests use one prefix, one suffix and one dictionary.',
  [B + 'alias.py', 'src/node/utils.py'],
  [('alias/unalias', B + 'alias.py'), ('ReverseMapping', 'src/node/utils.py')],
  ['alias(), unalias()'])

P('C12', 'An aliased node is a consistent mapping over the aliased keys',
  'A node with an aliaser behaves, after any history, as a mapping over alias keys: values written under an alias are '
  'stored under the real key, enumeration shows exactly the aliases of the stored keys in storage order, and every '
  'enumerated key can be read, overwritten and deleted. Whitelisting dictionary aliasers hide unlisted stored keys and refuse '
  'unlisted aliases, an empty strict whitelist hides everything, and KeyErrors about missing items name the alias used. Without an '
  'aliaser keys pass unchanged.',
  ['histories', 'configurations'],
  'all operation sequences up to a depth over listed, unlisted, matching and non-matching keys, with data present in the '
  'storage before aliasing, for every aliaser kind',
  'Tests run the mapping script with one dict aliaser and one prefix aliaser.',
  [B + 'alias.py'],
  [('Alias behavior', B + 'alias.py')],
  ['mapping results versus storage content'])

P('C13', 'A cached node never serves stale children',
  'Reading through a caching node at any moment returns what the underlying node would return uncached: writes, '
  'overwrites, deletes, pop, clear, setdefault and invalidation of one or all keys show at once, whichever behaviors '
  'that keep keys apart lie below the cache. A repeated read of an existing key without intervening write or invalidation is served from the '
  'cache without asking the backend again and returns the same object, and missing keys are never cached.',
  ['histories', 'configurations'],
  'all sequences of reads, writes, deletes, invalidations and backend changes up to a depth, for several behavior stacks',
  'Tests follow one scripted sequence.',
  [B + 'cache.py'],
  [('eviction on write, delete, invalidate', B + 'cache.py')],
  ['values returned, backend reads counted'],
  [('cache', 'key to value dict', B + 'cache.py')])

P('C14', 'Factory children and invalidation rebuild exactly the requested children',
  'A node with child factories always enumerates exactly the factory keys, in their order; the first access to a key '
  'creates its child by its factory exactly once and adopts it, later accesses return the same child, and unknown keys '
  'raise KeyError. Invalidating a key drops that child only, invalidating without key drops all stored children, '
  'invalidating an unknown key raises KeyError and changes nothing, and after invalidation the next access creates a fresh '
  'child. For storage backed nodes invalidation removes exactly the given key or all keys.',
  ['histories', 'configurations'],
  'all sequences of access, set, delete and invalidate over known and unknown keys up to a depth, for both invalidation '
  'behaviors with and without factories and cache',
  'Tests follow one scripted sequence per class.',
  [B + 'cache.py', B + 'common.py'],
  [('ChildFactory', B + 'common.py'), ('Invalidate, VolatileStorageInvalidate', B + 'cache.py')],
  ['factory call counts, identity, keys'])

P('C15', 'Fixed children are created once and can never be changed',
  'A node with fixed children holds, from construction on, exactly one child per configured factory, in the configured '
  'order, each with its key as name and the node as parent, and separate instances have separate children. Every '
  'writing operation is refused and after any sequence of attempts the same child objects are still there.',
  ['histories', 'configurations'],
  'all sequences of write and read operations over known and unknown keys up to a depth on two instances',
  'Tests try one set and one delete.',
  [B + 'common.py'],
  [('FixedChildren', B + 'common.py')],
  ['children identity and order'])

P('C16', 'Unicode aware nodes treat encoded and decoded keys as the same key',
  'On a unicode aware node, UTF-8 encoded byte keys and their text form address the same item in reading, writing and '
  'deleting, enumeration yields text keys, and byte values read back as text. Keys and values that are not text or not '
  'decodable are kept unchanged, so after any history the node equals a dictionary keyed by the decoded keys.',
  ['histories', 'inputs'],
  'all operation sequences up to a depth over keys in both forms (ASCII, multi-byte, undecodable, non-text)',
  'The tests only use ASCII text keys.',
  [B + 'common.py', 'src/node/utils.py'],
  [('UnicodeAware', B + 'common.py'), ('decode', 'src/node/utils.py')],
  ['mapping results'])

P('C17', 'Every structural change emits exactly its lifecycle event, in order',
  'A lifecycle node notifies created once on construction, added (child, new parent, new name) once per insertion, removed '
  '(child, old parent, old name) once per deletion, detached (and no removed event) once per detach, and attribute changes '
  'notify modified for the owning node, once each and after the change has been made. An operation that fails notifies '
  'nothing and does not silence or change later notifications, and reads notify nothing.',
  ['histories', 'fault_sequences'],
  'all sequences of structural and attribute operations, succeeding and failing (missing keys, refused children, failing '
  'storage), up to a depth on a tree with several lifecycle nodes, event trace compared with the model after each step',
  'Tests check the events of single successful operations.',
  [B + 'lifecycle.py', 'src/node/events.py'],
  [('Lifecycle, AttributesLifecycle', B + 'lifecycle.py')],
  ['registered object event handlers'],
  [('_notify_suppress', 'suppresses the removed event during detach', B + 'lifecycle.py')])

P('C18', 'Dispatch calls exactly the bound subscribers, once each, in binding order',
  'After any history of registering events, binding and unbinding (by event, subscriber, both or all), dispatching an event '
  'calls exactly the subscribers then bound to that event on that very dispatcher, once each, in binding order, with '
  'exactly the given arguments, also when subscribers bind, unbind or dispatch while being notified. Binding to an event '
  'unknown to instance and class raises UnknownEvent and binds nothing, and bindings and events registered on one instance, or '
  'declared on one class, never leak to other instances, base classes or sibling classes.',
  ['histories', 'configurations'],
  'all operation sequences up to a depth over several dispatchers, events and (re-entrant) subscribers',
  'Tests bind and dispatch one or two subscribers in one fixed order.',
  [B + 'events.py'],
  [('Events.bind/unbind/dispatch', B + 'events.py'), ('metaclass hook collecting events', B + 'events.py')],
  ['subscriber call trace'],
  [('__subscribers__', 'event to subscriber list', B + 'events.py')])

P('C19', 'Event suppression covers exactly its with-block and its events',
  'While suppression is active, exactly the named events (all when none is named) are withheld from all subscribers, '
  'and nothing else; nested blocks add up and each ends on leaving it, normally or by an exception, restoring precisely '
  'what was suppressed outside. Entering yields the nesting depth, creating a suppression without entering it has no effect, '
  'one object may be entered repeatedly, and a dispatch withheld by suppression is neither delivered later nor to the wrong '
  'subscribers.',
  ['histories', 'fault_sequences'],
  'all well nested sequences of creating, entering and leaving (normally or exceptionally) suppressions interleaved with '
  'dispatches and attribute changes, up to a depth',
  'Tests enter at most two nested blocks and never leave by exception.',
  [B + 'events.py'],
  [('suppress_events', B + 'events.py')],
  ['subscriber call trace'],
  [('suppress data', 'depth and event names now suppressed', B + 'events.py')])

P('C20', 'Event attributes hold values per instance and notify exactly on change',
  'An event attribute reads as its default until set, holds its value per instance in the configured storage, and notifies '
  'decorated subscribers (with the instance and the value) and bound subscribers (with the value) exactly once when a '
  'set changes the value, or on every set if so configured, never otherwise. Deleting notifies both kinds of subscribers with '
  'UNSET and restores the default, deleting an unset attribute raises and notifies nothing, and a subscriber setting '
  'other attributes during notification neither loses nor duplicates notifications.',
  ['histories', 'configurations'],
  'all sequences of set/delete/read/bind/unbind over several attributes with different defaults, storages and flags, on two '
  'instances and a subclass, up to a depth',
  'Tests set each attribute a few times on one instance.',
  [B + 'events.py'],
  [('EventAttribute', B + 'events.py')],
  ['attribute values, subscriber call trace'])

P('C21', 'Fallback lookup resolves exactly along the documented fallback order',
  'A key found on a node itself is returned as is; otherwise the value is the first one found by following the same subpath '
  'below the fallback child of the nearest ancestor that declares a fallback key, continuing from wherever that fails towards '
  'the root through untried ancestors, and KeyError (or the default) if no fallback has it. A missing '
  'fallback child means continuing rootwards. Lookups never change the tree and terminate for every tree shape.',
  ['configurations', 'inputs'],
  'all trees up to a size and depth x all placements of fallback keys x all lookup paths, compared with an independent '
  'reference resolver, plus repeated and failing lookups',
  'Tests use a few hand written trees.',
  [B + 'fallback.py'],
  [('rootward and leafward traversal with visited set', B + 'fallback.py')],
  ['__getitem__, get, __contains__ results'])

P('C22', 'Event, suppression and fallback state of one thread never affects another',
  'Dispatching events, setting event attributes, suppressing events and fallback lookups work in every thread, not only '
  'the importing one, and each thread gets the results it would get alone under every interleaving with other threads '
  'working on their own objects. In particular suppression entered in one thread never withholds another thread\'s events, '
  'and a fallback lookup in progress never makes another thread\'s lookup fail.',
  ['schedules'],
  'all interleavings up to a preemption bound of two to three threads each running dispatch, suppression, event '
  'attribute or fallback scenarios',
  'The tests are single threaded.',
  [B + 'events.py', B + 'fallback.py'],
  [('threading.local state', B + 'events.py'), ('threading.local state', B + 'fallback.py')],
  ['per-thread results and call traces'])

P('C23', 'At most one thread at a time holds the lock of a tree',
  'For every interleaving of threads locking any nodes of the same tree, through lock objects, with-blocks or decorated '
  'methods and including the very first use of the lock, at most one thread is inside a locked section, so a '
  'read-modify-write in locked sections loses no update. Locks of different trees are independent.',
  ['schedules'],
  'all interleavings up to a preemption bound of two to three threads with one to two locked sections on the same '
  'or different nodes of one or two trees',
  'The tests lock from one thread only.',
  ['src/node/locking.py'],
  [('one re-entrant lock stored on the root', 'src/node/locking.py')],
  ['overlap of locked sections, final counter'],
  [('root lock', 'lock attribute of the root node', 'src/node/locking.py')])

P('C24', 'Tree locks are re-entrant, always released, and invisible to callers',
  'A thread holding the lock of a tree can lock it again through any of its nodes without blocking, and the lock is free for '
  'other threads exactly when every acquisition has been released, also when the locked code raises. A method decorated for '
  'locking returns the value and propagates the exception of the undecorated method with the arguments given, a tree that '
  'has been locked can be deep copied and pickled like any other, and no interleaving of threads using one tree\'s lock '
  'deadlocks.',
  ['schedules', 'fault_sequences'],
  'all nesting sequences of lock operations up to a depth with exceptions at every point, and all interleavings up '
  'to a preemption bound of threads with nested sections',
  'The tests use a mock lock in one thread and never raise inside.',
  ['src/node/locking.py'],
  [('release in finally', 'src/node/locking.py')],
  ['blocking, return values, exceptions'])

P('C25', 'Deserializing a serialized structure gives back an equal structure',
  'For every tree of registered node types with attribute values made of JSON values, UUIDs, UNSET, classes, functions '
  'and nested lists and dictionaries of them, deserializing its serialization yields nodes of the same classes, '
  'names, parents, child order, attributes and values. Lists, plain values and nodes nested in them round trip too, with a '
  'given root deserialized nodes become its children, and serializing changes nothing.',
  ['inputs'],
  'all trees up to a size x node classes x value kinds nested up to a depth',
  'Tests round trip a handful of hand written structures.',
  ['src/node/serializer.py'],
  [('NodeEncoder/NodeDecoder', 'src/node/serializer.py')],
  ['structure comparison'])

P('C26', 'Serializer registrations apply to exactly the matching nodes, in order',
  'Serializing a node calls every registered serializer whose interface or class the node provides or is an instance of, in '
  'registration order, and no other, and deserializing likewise with the deserializers. Simple mode emits plain dictionaries with '
  'the node data directly inside, without type information unless the class is requested, never altering children, '
  'attributes and their order.',
  ['configurations', 'inputs'],
  'all subsets and orders of a pool of registrations x node types x modes x small trees',
  'Tests use one or two registrations.',
  ['src/node/serializer.py'],
  [('registry loops', 'src/node/serializer.py'), ('simple_mode flags', 'src/node/serializer.py')],
  ['callback trace, JSON output'])

P('C27', 'Serialized references resolve in a fresh interpreter',
  'The JSON written for any tree, class or function is enough to rebuild it in a process that has imported nothing but '
  'the serializer: every module that has to be imported, at any package depth, is imported on demand, and nested classes '
  'resolve to the very object. A name that cannot be resolved raises an error instead of yielding something else.',
  ['inputs', 'configurations'],
  'all combinations of package depth, nesting depth, kind of reference and already imported modules',
  'Tests deserialize in the process where everything is imported already.',
  ['src/node/serializer.py'],
  [('dotted name resolution', 'src/node/serializer.py')],
  ['result of deserialize in a fresh process'])

P('C28', 'Copies are complete and independent of the original',
  'A shallow copy of a storage backed node has its class, name, parent and the same children, and adding, replacing or removing '
  'items on either afterwards never shows on the other. A deep copy of a tree root has the same structure, values, '
  'attributes and order built from new nodes only, whose parents, paths and uuid index refer to the copy, and changes on '
  'either side never show on the other. Copying itself changes nothing in the original.',
  ['histories', 'configurations'],
  'all histories up to a depth before the copy x all operations on both sides afterwards, for every stock class',
  'Tests copy one node and compare one child.',
  [B + 'mapping.py', B + 'nodify.py', B + 'common.py'],
  [('ClonableMapping.copy/deepcopy, Nodify.copy', B + 'mapping.py')],
  ['both structures after each step'])

P('C29', 'Uuid aware nodes and their deep copies always have fresh distinct uuids',
  'Every uuid aware node gets a uuid of its own on construction, from its uuid factory. A deep copy gets new uuids for itself '
  'and, if recursive overwriting is on, for every uuid aware descendant however nested, while the original keeps its '
  'uuids and other children and values are left alone; with recursive overwriting off exactly the copied node gets a new '
  'one. Setting uuids explicitly replaces existing ones only if overriding and touches descendants only if recursive. A '
  'shallow copy is refused.',
  ['configurations', 'histories'],
  'all small trees mixing uuid aware nodes, plain nodes and non-node values x both settings x repeated copies',
  'Tests copy one two-level tree.',
  [B + 'common.py'],
  [('UUIDAware', B + 'common.py')],
  ['uuids of original and copy'])

P('C30', 'Encoding and decoding nested data is lossless and leaves the input alone',
  'For every nested structure of texts, bytes, lists, tuples, dictionaries and nodes, decoding turns every decodable byte '
  'string into text and encoding turns every text into bytes, at every depth and for keys as well as values, keeping '
  'container types (nodes become dictionaries), and decoding the encoding of a text structure returns it. Undecodable bytes '
  'stay as they are, or raise UnicodeDecodeError when decoding strictly; other values pass untouched; the input is never modified.',
  ['inputs', 'configurations'],
  'all structures up to a depth and width over a set of leaves x codecs x soft and strict mode',
  'Tests use a few hand written structures.',
  ['src/node/utils.py'],
  [('StrCodec', 'src/node/utils.py')],
  ['encode(), decode()'])

P('C31', 'Tree navigation finds the right nodes',
  'In every tree, acquire returns the nearest proper ancestor that provides the interface or is an instance of the class, or None; '
  'filtering values by interface yields exactly the children providing it, in enumeration order. A tree print shows '
  'every node and value exactly once, indented by its depth, in child order for ordered and sorted by key for unordered nodes.',
  ['configurations', 'inputs'],
  'all trees up to a size x all placements of interfaces and classes x all starting nodes',
  'Tests use one small tree per method.',
  [B + 'nodify.py'],
  [('acquire, filteredvalues, treerepr', B + 'nodify.py')],
  ['return values'])

P('C32', 'Attribute style access mirrors item access exactly',
  'Reading, setting and deleting through attribute access of a node, or children through attribute lookup, gives the same '
  'results and effects as the item operation for the same key, after any history. A missing name raises AttributeError in '
  'attribute style (so hasattr and getattr defaults work) and KeyError in item style, and real attributes of a node '
  'take precedence over children of the same name.',
  ['histories', 'inputs'],
  'all sequences of both access styles up to a depth over colliding names',
  'Tests read and set single names.',
  ['src/node/utils.py', B + 'common.py'],
  [('AttributeAccess', 'src/node/utils.py'), ('AsAttrAccess, GetattrChildren', B + 'common.py')],
  ['values, exceptions'])

P('C33', 'Instance properties are computed once per instance and kept',
  'An instance property evaluates its function on first access only, once per instance whatever the value (None and other '
  'falsy values included), returns that same object ever after, and never shares it between instances or '
  'properties (of different names), also on classes overriding attribute lookup and in subclasses. If the function raises, nothing is kept and the '
  'next access evaluates again; the debug decorator returns the value and propagates the exception of the wrapped function unchanged.',
  ['histories', 'inputs', 'fault_sequences'],
  'all access sequences up to a depth over two instances and two properties x value kinds x raising patterns',
  'Tests access one property of one instance.',
  ['src/node/utils.py'],
  [('instance_property', 'src/node/utils.py'), ('debug', 'src/node/utils.py')],
  ['evaluation counts, identity'])

P('C34', 'The mapping contract tester passes correct and exposes faulty mappings',
  'The full mapping contract tester reports OK for every contract method of a correct mapping, and for a mapping in which one '
  'method is wrong (wrong result, missing effect or exception) it reports the failure of a contract entry rather than '
  'all OK, running every contract entry exactly once in order even after earlier failures. Its verdicts depend on the tested '
  'class only, not on earlier runs.',
  ['configurations', 'fault_sequences'],
  'all single faults (and pairs, thorough) from a catalogue of method mutations x node and plain mapping classes',
  'Tests check a few hand written faulty classes.',
  ['src/node/testing/fullmapping.py', 'src/node/testing/base.py'],
  [('FullMappingTester', 'src/node/testing/fullmapping.py')],
  ['tester results'])

P('C35', 'UNSET stays one falsy marker and reversed mappings mirror their source',
  'UNSET is one object: falsy, of length zero, printed empty, and still identical after copying, deep copying, pickling and '
  'serializing alone or inside structures, and it is never taken for None or vice versa. A reversed mapping of any dictionary, '
  'whatever its values (falsy ones included), maps each value to the first key holding it, raises KeyError (or returns the '
  'default) for others, and agrees in length, membership and enumeration with the source at every moment.',
  ['inputs', 'histories'],
  'all structures up to a depth containing UNSET; all dictionaries up to a size over falsy and colliding values, with '
  'changes to the source in between',
  'Tests look at UNSET once and reverse one dictionary.',
  ['src/node/utils.py'],
  [('Unset', 'src/node/utils.py'), ('ReverseMapping', 'src/node/utils.py')],
  ['identity, mapping results'])

P('C36', 'Nodes provide the interfaces of their behaviors and keep what these promise',
  'A class composed of behaviors, in whatever order and over whatever class, provides the interfaces of each of them and of its '
  'bases, and none of a behavior it does not use; every attribute and method promised by a provided interface exists on '
  'instances with the arguments promised. Subclasses, copies and deep copies provide the same. An interface declared on a '
  'single node holds for this node only, survives moving, removing, copying and deep copying it, and is what filteredvalues and '
  'acquire go by. Node events provide their own event interface and the general one, and none of another node event.',
  ['inputs', 'histories'],
  'all sequences of behaviors up to a length over several kinds of classes; all histories of declarations and tree operations',
  'Tests compose a few classes and look at one or two interfaces.',
  ['src/node/interfaces.py', 'src/node/behaviors', 'src/node/base.py', 'src/node/events.py', 'src/node/utils.py'],
  [('INode', 'src/node/interfaces.py'), ('Nodify', 'src/node/behaviors/nodify.py'), ('NodeCreatedEvent', 'src/node/events.py')],
  ['provided interfaces', 'verification of instances', 'results of filteredvalues and acquire'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    print(len(PROPS), 'properties')
