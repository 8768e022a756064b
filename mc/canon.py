"""Canonical form of an object graph.

Two histories are merged only if every object reachable from the harness
state (real nodes, reference model) and from the mutable module, class and
closure level state of ``node`` is isomorphic, so merged states have the same
futures.  Object identities become first-visit numbers and uuids (as well as the
integers derived from them) become first-visit numbers, everything else is
compared by type and value.
"""
from collections import deque
from odict import odict
import hashlib
import sys
import threading
import types
import uuid
import weakref

BIG = 1 << 40
_ATOMS = (str, bytes, float, bool, type(None), complex, type(Ellipsis))
_LEAF = (type, types.FunctionType, types.BuiltinFunctionType,
         types.ModuleType, property, staticmethod, classmethod,
         types.MethodWrapperType, types.WrapperDescriptorType,
         types.MethodDescriptorType, types.GetSetDescriptorType,
         types.MemberDescriptorType)


class Walker(object):

    def __init__(self):
        self.out = []
        self.seen = {}
        self.keep = []
        self.nums = {}

    def num(self, val):
        return self.nums.setdefault(val, len(self.nums))

    def _sortkey(self, k):
        if isinstance(k, uuid.UUID):
            return ('U', self.num(k.int), '')
        if type(k) is int and k > BIG:
            return ('U', self.num(k), '')
        if isinstance(k, (str, bytes, int, float, bool, type(None), tuple)):
            return (type(k).__name__, 0, repr(k))
        return ('~' + type(k).__name__, 0, '')

    def visit(self, o):
        out = self.out
        t = type(o)
        if t is str or t is bytes or t is bool or o is None or t is float:
            out.append(repr(o))
            return
        if t is int:
            out.append('#%d' % self.num(o) if o > BIG else repr(o))
            return
        if t is uuid.UUID:
            out.append('#%d' % self.num(o.int))
            return
        oid = id(o)
        ref = self.seen.get(oid)
        if ref is not None:
            out.append('@%d' % ref)
            return
        self.seen[oid] = len(self.seen)
        self.keep.append(o)
        if isinstance(o, _LEAF):
            out.append('<%s.%s>' % (getattr(o, '__module__', ''),
                                    getattr(o, '__qualname__',
                                            getattr(o, '__name__', t.__name__))))
            return
        if isinstance(o, odict):
            out.append(t.__name__ + '{|')
            raw = list(dict.items(o))
            # keys with a natural total order are sorted: the order of an
            # odict is the order of its links, which are part of the entry.
            if all(isinstance(k, (str, bytes, int, float, type(None)))
                   and not (type(k) is int and k > BIG) for k, _ in raw):
                raw.sort(key=lambda kv: self._sortkey(kv[0]))
            for k, v in raw:
                self.visit(k)
                out.append(':')
                self.visit_flat(v)
            self.attrs(o)
            out.append('}')
            return
        if isinstance(o, dict):
            out.append('{' if t is dict else t.__name__ + '{')
            for k, v in list(o.items()):
                self.visit(k)
                out.append(':')
                self.visit(v)
            if t is not dict:
                self.attrs(o)
            out.append('}')
            return
        if isinstance(o, (list, tuple, deque)):
            out.append('[' if t is list else t.__name__ + '[')
            for v in list(o):
                self.visit(v)
                out.append(',')
            if t not in (list, tuple, deque):
                self.attrs(o)
            out.append(']')
            return
        if isinstance(o, (set, frozenset)):
            out.append(t.__name__ + '(')
            for v in sorted(o, key=self._sortkey):
                self.visit(v)
                out.append(',')
            out.append(')')
            return
        if t is types.MethodType:
            out.append('<bound %s ' % o.__func__.__qualname__)
            self.visit(o.__self__)
            out.append('>')
            return
        if isinstance(o, weakref.ref):
            out.append('weak')
            self.visit(o())
            return
        mod = t.__module__
        if mod.startswith('zope.') or mod.startswith('plumber'):
            out.append('<z %s %s>' % (t.__name__, getattr(o, '__name__', '')))
            return
        if mod in ('_thread', 'threading') and 'ock' in t.__name__:
            out.append('<lock %s>' % repr(o).split(' at ')[0])
            return
        if isinstance(o, BaseException):
            out.append('<exc %s %r>' % (t.__name__, o.args))
            return
        out.append(t.__module__ + '.' + t.__qualname__ + '(')
        self.attrs(o)
        out.append(')')

    def visit_flat(self, v):
        # an odict entry list [pred, value, succ]: not an object of interest
        if type(v) is list:
            self.out.append('[')
            for x in v:
                self.visit(x)
                self.out.append(',')
            self.out.append(']')
        else:
            self.visit(v)

    def attrs(self, o):
        try:
            d = object.__getattribute__(o, '__dict__')
        except AttributeError:
            d = None
        if d:
            for k in sorted(d, key=repr):
                if k == '__provides__':
                    self.out.append('provides=%r' % sorted(
                        str(getattr(i, '__name__', i)) for i in d[k]))
                    continue
                self.out.append('%s=' % (k,))
                self.visit(d[k])
        for cls in type(o).__mro__:
            for s in getattr(cls, '__slots__', ()) or ():
                if isinstance(s, str) and s not in ('__dict__', '__weakref__'):
                    try:
                        v = object.__getattribute__(o, s)
                    except AttributeError:
                        continue
                    self.out.append('%s=' % s)
                    self.visit(v)

    def digest(self):
        return hashlib.blake2b(
            '\x1f'.join(self.out).encode('utf-8', 'surrogatepass'),
            digest_size=12).digest()


class Globals(object):
    """Mutable module, class, closure and default-argument state of node."""

    def __init__(self, prefixes=('node',), extra=()):
        self.prefixes = prefixes
        self.getters = []     # (namespace or cell, key)
        self.namespaces = []
        self._seen = set()
        for name in sorted(sys.modules):
            if name.split('.')[0] in prefixes or name in extra:
                mod = sys.modules[name]
                if isinstance(mod, types.ModuleType):
                    self._namespace(mod.__dict__, mod.__name__)
        self.initial = [self._capture(self._get(g)) for g in self.getters]
        self.sizes = [set(ns) for ns in self.namespaces]

    def _own(self, ob):
        mod = getattr(ob, '__module__', None) or ''
        return mod.split('.')[0] in self.prefixes + ('mc',)

    def _namespace(self, ns, label):
        if id(ns) in self._seen:
            return
        self._seen.add(id(ns))
        self.namespaces.append(ns)
        for key in sorted(ns, key=str):
            if isinstance(key, str) and key.startswith('__') \
                    and key not in ('__events__', '__subscribers__'):
                continue
            self._value(ns, key, ns[key])

    def _value(self, holder, key, val):
        if isinstance(val, types.ModuleType):
            return
        if isinstance(val, type):
            if self._own(val) and id(val) not in self._seen:
                self._seen.add(id(val))
                for k in sorted(vars(val), key=str):
                    if k in ('__dict__', '__weakref__', '__doc__', '__module__',
                             '__qualname__', '__plumbing__',
                             '__plumbing_stacks__', '__mro__',
                             '__implemented__', '__provides__',
                             '__providedBy__', '__static_attributes__',
                             '__firstlineno__', '__metaclass__'):
                        continue
                    self._value(val, k, vars(val)[k])
            return
        if isinstance(val, (staticmethod, classmethod)):
            val = val.__func__
        if isinstance(val, property):
            for f in (val.fget, val.fset, val.fdel):
                if f is not None:
                    self._func(f)
            return
        if isinstance(val, types.FunctionType):
            self._func(val)
            return
        if isinstance(val, _LEAF) or isinstance(val, types.MethodType):
            return
        if type(val).__module__.startswith(('zope', 'plumber', 'logging',
                                            'builtins.module')):
            return
        self.getters.append((holder, key))

    def _func(self, f):
        if not isinstance(f, types.FunctionType) or id(f) in self._seen:
            return
        self._seen.add(id(f))
        if not self._own(f):
            # decorators of other packages wrap functions of node
            pass
        if f.__defaults__:
            for d in f.__defaults__:
                if isinstance(d, (list, dict, set)):
                    self.getters.append((_Const(d), None))
        if f.__kwdefaults__:
            for d in f.__kwdefaults__.values():
                if isinstance(d, (list, dict, set)):
                    self.getters.append((_Const(d), None))
        if f.__dict__:
            for k, v in f.__dict__.items():
                if not callable(v):
                    self.getters.append((f.__dict__, k))
        for cell in f.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, types.FunctionType):
                self._func(v)
            elif isinstance(v, (list, dict, set, int, type(None), deque)):
                if f.__module__ and f.__module__.split('.')[0] in self.prefixes:
                    self.getters.append((cell, None))
                elif isinstance(v, (list, dict, set)):
                    pass

    @staticmethod
    def _get(g):
        holder, key = g
        if isinstance(holder, _Const):
            return holder.val
        if isinstance(holder, types.CellType):
            try:
                return holder.cell_contents
            except ValueError:
                return None
        if isinstance(holder, type):
            return vars(holder).get(key)
        return holder.get(key)

    # ------------------------------------------------------------- capture
    def _capture(self, val, depth=0):
        if depth > 3:
            return (val, None)
        if isinstance(val, threading.local):
            return (val, dict((k, self._capture(v, depth + 1))
                              for k, v in val.__dict__.items()))
        if isinstance(val, odict):
            return (val, [(k, self._capture(v, depth + 1))
                          for k, v in val.items()])
        if isinstance(val, dict):
            return (val, [(k, self._capture(v, depth + 1))
                          for k, v in val.items()])
        if isinstance(val, list):
            return (val, [self._capture(v, depth + 1) for v in val])
        if isinstance(val, set):
            return (val, set(val))
        if self._own(type(val)) and hasattr(val, '__dict__'):
            return (val, dict((k, self._capture(v, depth + 1))
                              for k, v in val.__dict__.items()))
        return (val, None)

    def _restore_value(self, cap):
        val, content = cap
        if content is None:
            return val
        if isinstance(val, threading.local) or not isinstance(
                val, (dict, list, set)):
            d = val.__dict__
            if set(d) != set(content):
                for k in list(d):
                    if k not in content:
                        del d[k]
            for k, c in content.items():
                v = self._restore_value(c)
                if d.get(k) is not v:
                    d[k] = v
            return val
        if isinstance(val, set):
            if val != content:
                val.clear()
                val.update(content)
            return val
        if isinstance(val, list):
            new = [self._restore_value(c) for c in content]
            if len(val) != len(new) or any(a is not b for a, b in zip(val, new)):
                val[:] = new
            return val
        # dict, odict
        new = [(k, self._restore_value(c)) for k, c in content]
        cur = list(val.items())
        if len(cur) != len(new) or any(
                a[0] is not b[0] or a[1] is not b[1] for a, b in zip(cur, new)):
            val.clear()
            for k, v in new:
                val[k] = v
        return val

    def restore(self):
        for g, cap in zip(self.getters, self.initial):
            holder, key = g
            val = self._restore_value(cap)
            if isinstance(holder, _Const):
                continue
            if self._get(g) is val:
                continue
            if isinstance(holder, types.CellType):
                holder.cell_contents = val
            elif isinstance(holder, type):
                type.__setattr__(holder, key, val)
            else:
                holder[key] = val
        for ns, keys in zip(self.namespaces, self.sizes):
            if len(ns) != len(keys):
                for k in list(ns):
                    if k not in keys and not str(k).startswith('__'):
                        del ns[k]

    def walk(self, w):
        for g in self.getters:
            w.visit(self._get(g))
        for ns, keys in zip(self.namespaces, self.sizes):
            if len(ns) != len(keys):
                w.out.append('+' + ','.join(sorted(map(str, set(ns) - keys))))


class _Const(object):

    def __init__(self, val):
        self.val = val


_globals = [None]


def globals_():
    if _globals[0] is None:
        _globals[0] = Globals()
    return _globals[0]


def digest(*roots):
    w = Walker()
    for r in roots:
        w.visit(r)
    globals_().walk(w)
    return w.digest()
