"""C34: the mapping contract tester."""
from mc import env  # noqa: F401
from mc import zoo
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.testing import FullMappingTester
from node.testing.base import BaseTester
from node.testing.base import ContractError
from odict import odict
import itertools

TECHNIQUE = ('complete enumeration of faulty mapping classes, each correct '
             'method replaced by every fault of a catalogue (and pairs), and '
             'of sequences of test runs; the real tester is run on each and '
             'its results compared with what is known about the class')
LEVEL_NOTE = (
    'All single faults of a catalogue of about 20 faults per method on '
    'hand written mappings, hand written nodes and stock node classes, all '
    'pairs of faults, all sequences of 3 (4) runs over 6 '
    'testers, all patterns of outcomes of a 4 (5) entry contract.')
ASSUMPTIONS = ['wrong means observable with a few children below text keys']

CONTRACT = ['__setitem__', '__getitem__', 'get', '__iter__', 'keys',
            'iterkeys', 'values', 'itervalues', 'items', 'iteritems',
            '__contains__', 'has_key', '__len__', 'update', '__delitem__',
            'copy', 'setdefault', 'pop', 'popitem', 'clear']


class Good(object):
    """Correct mapping, every method independent of the others."""

    def __init__(self):
        self.data = odict()

    def __setitem__(self, k, v):
        self.data[k] = v

    def __getitem__(self, k):
        return self.data[k]

    def get(self, k, d=None):
        return self.data.get(k, d)

    def __iter__(self):
        return iter(self.data)

    def keys(self):
        return list(self.data.keys())

    def iterkeys(self):
        return iter(self.data.keys())

    def values(self):
        return list(self.data.values())

    def itervalues(self):
        return iter(self.data.values())

    def items(self):
        return list(self.data.items())

    def iteritems(self):
        return iter(self.data.items())

    def __contains__(self, k):
        return k in self.data

    def has_key(self, k):
        return k in self.data

    def __len__(self):
        return len(self.data)

    def update(self, data=(), **kw):
        pairs = data.data.items() if isinstance(data, Good) else data
        for k, v in pairs:
            self._put(k, v)
        for k, v in kw.items():
            self._put(k, v)

    def _put(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def copy(self):
        new = self.__class__()
        new.data = odict(self.data.items())
        return new

    def setdefault(self, k, d=None):
        if k not in self.data:
            self._put(k, d)
        return self.data[k]

    def pop(self, k, *a):
        return self.data.pop(k, *a)

    def popitem(self):
        return self.data.popitem()

    def clear(self):
        self.data.clear()


class GoodNode(Good):
    """Correct node."""

    def __init__(self, name=None, parent=None):
        super(GoodNode, self).__init__()
        self.__name__ = name
        self.__parent__ = parent

    def __setitem__(self, k, v):
        self._put(k, v)

    def _put(self, k, v):
        v.__name__ = k
        v.__parent__ = self
        self.data[k] = v

    def copy(self):
        new = self.__class__(self.__name__, self.__parent__)
        new.data = odict(self.data.items())
        return new


class Views(Good):
    """Views and iterators instead of lists, native dictionary."""

    def __init__(self):
        self.data = {}

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def items(self):
        return self.data.items()

    def copy(self):
        new = self.__class__()
        new.data = dict(self.data)
        return new


class ReadsMissing(Good):
    """No __contains__ of its own."""
    __contains__ = property()

    def __contains__(self, k):  # noqa: F811
        return any(k == i for i in self)


class Subclassed(GoodNode):
    pass


GOOD = odict([('plain', (Good, False)), ('node', (GoodNode, True)),
              ('node, no node checks', (GoodNode, False)),
              ('views', (Views, False)), ('reads', (ReadsMissing, False)),
              ('subclass', (Subclassed, True))])
for _n, (_f, _c, _o) in zoo.MAPPINGS.items():
    if _n in ('attrs', 'UUIDNode', 'OwnNode', 'OwnMapping', 'OwnMissing',
              'StorageMissing', 'DictMapping',
              'OdictMapping', 'DictValues', 'OdictValues'):
        continue
    GOOD[_n] = (_f, _n not in ('DictValues', 'OdictValues'))
GOOD['DictMapping'] = (zoo.DictMapping, False)
GOOD['OdictMapping'] = (zoo.OdictMapping, False)
GOOD['OdictValues'] = (zoo.OdictValues, False)


# ---------------------------------------------------------------------------
# faults: functions of the correct method giving the faulty one
# ---------------------------------------------------------------------------

def boom(exc):
    def fault(f):
        def method(self, *a, **k):
            raise exc('boom')
        return method
    fault.__name__ = 'raises %s' % exc.__name__
    return fault


def after(f):
    def method(self, *a, **k):
        f(self, *a, **k)
        raise ValueError('boom')
    return method


def nothing(f):
    def method(self, *a, **k):
        return None
    return method


def no_result(f):
    def method(self, *a, **k):
        f(self, *a, **k)
    return method


def result(val):
    def fault(f):
        def method(self, *a, **k):
            return val
        return method
    fault.__name__ = 'result %r' % (val,)
    return fault


def change(name, fn):
    """Result changed by fn."""
    def fault(f):
        def method(self, *a, **k):
            return fn(f(self, *a, **k))
        return method
    fault.__name__ = name
    return fault


def own(name, method):
    def fault(f):
        def faulty(self, *a, **k):
            return method(f, self, *a, **k)
        return faulty
    fault.__name__ = name
    return fault


GENERIC = [boom(ValueError), boom(KeyError), boom(AttributeError),
           boom(NotImplementedError), nothing, after]
LISTS = [result([]), result(()), change('first only', lambda r: list(r)[:1]),
         change('last only', lambda r: list(r)[1:]),
         change('first twice', lambda r: (list(r) * 2)[:1] * 2
                if len(list(r)) else list(r)),
         change('one more', lambda r: list(r) + list(r)[:1])]
KEYS = LISTS + [change('other keys', lambda r: ['x%s' % k for k in list(r)]),
                change('stray key', lambda r: list(r) + ['stray'])]


def listed(faults):
    """The change functions consume iterators once."""
    out = []
    for fault in faults:
        def wrapped(f, fault=fault):
            def once(self, *a, **k):
                return list(f(self, *a, **k))
            inner = fault(once)

            def method(self, *a, **k):
                return inner(self, *a, **k)
            return method
        wrapped.__name__ = fault.__name__
        out.append(wrapped)
    return out


def iterated(faults):
    out = []
    for fault in listed(faults):
        def wrapped(f, fault=fault):
            inner = fault(f)

            def method(self, *a, **k):
                return iter(inner(self, *a, **k))
            return method
        wrapped.__name__ = fault.__name__
        out.append(wrapped)
    return out


def _foreign(pairs):
    return [(k, Foreign(k)) for k, _ in pairs]


class Foreign(object):
    """A value nobody stored."""

    def __init__(self, name):
        self.__name__ = name


VALUES = LISTS + [change('nones', lambda r: [None for _ in r]),
                  change('foreign', lambda r: [Foreign(
                      getattr(v, '__name__', None)) for v in r])]
ITEMS = LISTS + [change('swapped', lambda r: [(v, k) for k, v in r]),
                 change('foreign', _foreign),
                 change('crossed', lambda r: list(zip(
                     [k for k, _ in r], [v for _, v in r][::-1]))),
                 change('other keys', lambda r: [('x' + k, v) for k, v in r]),
                 change('bare keys', lambda r: [k for k, _ in r])]


def _data(self):
    return self.data if hasattr(self, 'data') else self.storage


def _get_none(f, self, k, d=None):
    return f(self, k)


def _get_default(f, self, k, d=None):
    return d


def _set_first(f, self, k, v):
    if not len(_data(self)):
        f(self, k, v)


def _set_other(f, self, k, v):
    f(self, 'x' + k, v)


def _set_clear(f, self, k, v):
    _data(self).clear()
    f(self, k, v)


def _item_default(f, self, k):
    try:
        return f(self, k)
    except KeyError:
        return None


def _item_other_error(f, self, k):
    try:
        return f(self, k)
    except KeyError:
        raise IndexError(k)


def _item_first(f, self, k):
    f(self, k)
    return list(_data(self).values())[0]


def _item_foreign(f, self, k):
    f(self, k)
    return Foreign(k)


def _upd_no_kw(f, self, *a, **k):
    f(self, *a)


def _upd_no_data(f, self, *a, **k):
    f(self, **k)


def _upd_lenient(f, self, *a, **k):
    f(self, *a[:1], **k)


def _upd_other_error(f, self, *a, **k):
    if len(a) > 1:
        raise ValueError('at most one')
    f(self, *a, **k)


def _upd_foreign(f, self, *a, **k):
    f(self, *a, **k)
    for x in a:
        if isinstance(x, tuple):
            for key, _ in x:
                _data(self)[key] = Foreign(key)


def _upd_clears(f, self, *a, **k):
    _data(self).clear()
    f(self, *a, **k)


def _del_nothing(f, self, k):
    _data(self)[k]


def _del_other(f, self, k):
    f(self, [x for x in list(_data(self)) if x != k][0])


def _del_all(f, self, k):
    _data(self).clear()


def _copy_self(f, self):
    return self


def _copy_empty(f, self):
    new = f(self)
    _data(new).clear()
    return new


def _copy_first(f, self):
    new = f(self)
    for k in list(_data(new))[1:]:
        if k != 'foo':
            del _data(new)[k]
    return new


def _copy_foreign(f, self):
    new = f(self)
    for k in list(_data(new)):
        _data(new)[k] = Foreign(k)
    return new


def _copy_more(f, self):
    new = f(self)
    _data(new)['more'] = Foreign('more')
    return new


def _copy_clears(f, self):
    new = f(self)
    _data(self).clear()
    return new


def _sd_replace(f, self, k, d=None):
    _data(self)[k] = d
    return d


def _sd_forget(f, self, k, d=None):
    return _data(self).get(k, d)


def _sd_return(f, self, k, d=None):
    f(self, k, d)
    return d


def _sd_foreign(f, self, k, d=None):
    if k in list(_data(self)):
        return f(self, k, d)
    _data(self)[k] = Foreign(k)
    return d


def _pop_keep(f, self, k, *a):
    return _data(self)[k] if not a else _data(self).get(k, *a)


def _pop_no_default(f, self, k, *a):
    return f(self, k)


def _pop_lenient(f, self, k, *a):
    return f(self, k, *(a or (None,)))


def _pop_all(f, self, k, *a):
    res = f(self, k, *a)
    _data(self).clear()
    return res


def _pop_other(f, self, k, *a):
    if a or k not in list(_data(self)):
        return f(self, k, *a)
    return f(self, [x for x in list(_data(self)) if x != k][0])


def _pi_keep(f, self):
    return list(_data(self).items())[-1]


def _pi_key(f, self):
    return f(self)[0]


def _pi_lenient(f, self):
    try:
        return f(self)
    except KeyError:
        return None


def _pi_other_error(f, self):
    try:
        return f(self)
    except KeyError:
        raise ValueError('empty')


def _pi_two(f, self):
    res = f(self)
    if len(_data(self)):
        f(self)
    return res


def _pi_foreign(f, self):
    k, _ = f(self)
    return k, Foreign(k)


def _clear_first(f, self):
    for k in list(_data(self))[:1]:
        del _data(self)[k]


def _clear_last(f, self):
    for k in list(_data(self))[1:]:
        del _data(self)[k]


def owns(*fns):
    return [own(fn.__name__.strip('_'), fn) for fn in fns]


CATALOGUE = {
    '__setitem__': owns(_set_first, _set_other, _set_clear),
    '__getitem__': owns(_item_default, _item_other_error, _item_first,
                        _item_foreign) + [no_result],
    'get': owns(_get_none, _get_default) + [no_result],
    '__iter__': iterated(KEYS),
    'keys': listed(KEYS),
    'iterkeys': iterated(KEYS),
    'values': listed(VALUES),
    'itervalues': iterated(VALUES),
    'items': listed(ITEMS),
    'iteritems': iterated(ITEMS),
    '__contains__': [result(True), result(False), change(
        'negated', lambda r: not r)],
    'has_key': [result(True), result(False), change(
        'negated', lambda r: not r)],
    '__len__': [result(0), result(1), change('more', lambda r: r + 1),
                result('2')],
    'update': owns(_upd_no_kw, _upd_no_data, _upd_lenient, _upd_other_error,
                   _upd_foreign, _upd_clears),
    '__delitem__': owns(_del_nothing, _del_other, _del_all),
    'copy': owns(_copy_self, _copy_empty, _copy_first, _copy_foreign,
                 _copy_more, _copy_clears) + [no_result],
    'setdefault': owns(_sd_replace, _sd_forget, _sd_return, _sd_foreign) + [
        no_result],
    'pop': owns(_pop_keep, _pop_no_default, _pop_lenient, _pop_all,
                _pop_other) + [no_result],
    'popitem': owns(_pi_keep, _pi_key, _pi_lenient, _pi_other_error, _pi_two,
                    _pi_foreign) + [no_result],
    'clear': owns(_clear_first, _clear_last),
}
for _m in CONTRACT:
    CATALOGUE[_m] = CATALOGUE[_m] + GENERIC
FAULTS = [(m, i) for m in CONTRACT for i in range(len(CATALOGUE[m]))]


# node only
def _set_unnamed(f, self, k, v):
    name = v.__name__
    f(self, k, v)
    v.__name__ = name


def _copy_unnamed(f, self):
    new = f(self)
    new.__name__ = None
    return new


def _copy_orphan(f, self):
    new = f(self)
    new.__parent__ = None
    return new


NODE_FAULTS = [('__setitem__', own('unnamed', _set_unnamed)),
               ('copy', own('unnamed copy', _copy_unnamed)),
               ('copy', own('orphan copy', _copy_orphan))]

BASES = [('plain', Good, False), ('node', GoodNode, True),
         ('OrderedNode', zoo.OrderedNode, True),
         ('BaseNode', zoo.BaseNode, True), ('Node', zoo.Node, True)]


def faulty(base, faults):
    """Subclass of base with methods replaced."""
    ns = {}
    for m, fault in faults:
        if fault is None:
            def missing(self):
                raise AttributeError(m)
            ns[m] = property(missing) if not m.startswith('__') else None
            continue
        inner = ns.get(m) or getattr(base, m)
        ns[m] = fault(inner)
    return type('Faulty' + base.__name__, (base,), ns)


# pairs of these only are not noticed as well (see KNOWN_FINDINGS.txt)
MISSED = [
    'missed:__getitem__:item_default',
    'missed:__getitem__:item_other_error',
    'missed:__iter__:first-twice',
    'missed:iterkeys:first-twice',
    'missed:values:first-twice',
    'missed:values:nones',
    'missed:values:foreign',
    'missed:itervalues:first-twice',
    'missed:itervalues:nones',
    'missed:itervalues:foreign',
    'missed:iteritems:first-twice',
    'missed:has_key:result-True',
    'missed:copy:copy_first',
    'missed:copy:copy_more',
    'missed:setdefault:sd_foreign',
    'missed:popitem:pi_key',
    'missed:popitem:pi_foreign',
    'missed:popitem:no_result']


class Recorder(object):
    """Records contract entries as they are tested."""

    @staticmethod
    def of(tester):
        order = []

        def wrap(name):
            test = getattr(tester, 'test_' + name)

            def run():
                order.append(name)
                return test()
            return run
        for name in tester.iface_contract:
            setattr(tester, 'test_' + name, wrap(name))
        return order


def run_tester(tester, what):
    order = Recorder.of(tester)
    expect('run of ' + what, outcome(tester.run), ('any',))
    res = tester.results
    if order != CONTRACT:
        fail('%s: entries tested %r, expected each once in order', what, order)
    if list(res.keys()) != CONTRACT:
        fail('%s: results for %r, expected all in order', what,
             list(res.keys()))
    for name, text in res.items():
        if text != 'OK' and not text.startswith('failed: '):
            fail('%s: result of %s is %r', what, name, text)
    combined = sorted('``%s``: %s' % kv for kv in res.items())
    if tester.combined.split('\n') != '\n'.join(combined).split('\n'):
        fail('%s: combined results are\n%s', what, tester.combined)
    return res


class Correct(Cases):
    """Correct mappings pass."""
    name = 'correct mappings'

    def cases(self):
        for name in GOOD:
            for ctx in range(4):
                yield (name, ctx)

    def run(self, case):
        name, ctx = case
        cls, checks = GOOD[name]
        what = 'tester on correct %s' % name
        if ctx == 0:
            t = FullMappingTester(cls, node_checks=checks)
        elif ctx == 1:
            t = FullMappingTester(cls, context=cls(), node_checks=checks)
        elif ctx == 2:
            if not checks:
                return
            # as child of another one
            top = cls(name='top')
            top['x'] = root = cls()
            t = FullMappingTester(cls, context=root)
        else:
            if not checks:
                return
            t = FullMappingTester(cls)
            t.direct_error = True
        for again in range(2):
            res = run_tester(t, what)
            if set(res.values()) != set(['OK']):
                fail('%s: %r', what, [kv for kv in res.items()
                                      if kv[1] != 'OK'])
        if ctx == 2 and (top['x'] is not root or len(top) != 1
                         or root.__name__ != 'x'):
            fail('%s changed the surroundings of the context', what)


class Single(Cases):
    """Faulty mappings do not pass."""
    name = 'single faults'

    def cases(self):
        for b in range(len(BASES)):
            for n in range(len(FAULTS) + (len(NODE_FAULTS) if b else 0)):
                yield (b, n)
        for m in CONTRACT:
            if m != '__contains__':
                yield (0, m)
                yield (1, m)

    def fault(self, n):
        if isinstance(n, str):
            return n, None
        if n < len(FAULTS):
            m, i = FAULTS[n]
            return m, CATALOGUE[m][i]
        return NODE_FAULTS[n - len(FAULTS)]

    def run(self, case):
        b, n = case
        name, base, checks = BASES[b]
        m, fault = self.fault(n)
        what = '%s with %s of %s' % (name, 'fault %r' % getattr(
            fault, '__name__', 'missing'), m)
        cls = faulty(base, [(m, fault)])
        for ctx in range(2):
            t = FullMappingTester(cls, context=cls() if ctx else None,
                                  node_checks=checks)
            res = run_tester(t, what)
            if set(res.values()) == set(['OK']):
                fail('%s passes all tests', what)
        t = FullMappingTester(cls, node_checks=checks)
        t.direct_error = True
        if outcome(t.run)[0] != 'raise':
            fail('%s raises nothing if errors are to be raised directly',
                 what)


class Pairs(Cases):
    """Testing completes and fails with two faulty methods."""
    name = 'pairs of faults'

    def __init__(self, step):
        self.step = step

    def cases(self):
        n = 0
        for i in range(len(FAULTS)):
            for j in range(i + 1, len(FAULTS)):
                if FAULTS[i][0] == FAULTS[j][0]:
                    continue
                n += 1
                if n % self.step == 0:
                    yield (n % 2, i, j)

    def run(self, case):
        b, i, j = case
        name, base, checks = BASES[b]
        faults = [(FAULTS[k][0], CATALOGUE[FAULTS[k][0]][FAULTS[k][1]])
                  for k in (i, j)]
        what = '%s with %s' % (name, ' and '.join(
            '%r of %s' % (f.__name__, m) for m, f in faults))
        cls = faulty(base, faults)
        res = run_tester(FullMappingTester(cls, node_checks=checks), what)
        if set(res.values()) == set(['OK']):
            fail('%s passes all tests', what)


class Sequences(Cases):
    """Verdicts do not depend on earlier runs."""
    name = 'sequences of runs'

    def __init__(self, length):
        self.length = length

    def cases(self):
        for seq in itertools.product(range(7), repeat=self.length):
            yield seq

    def verdict(self, res):
        return [k for k, v in res.items() if v != 'OK']

    def run(self, case):
        class FaultyGet(Good):
            def get(self, k, d=None):
                raise ValueError('boom')

        class FaultyHasKey(GoodNode):
            def has_key(self, k):
                return k not in self.data
        kept = [FullMappingTester(Good, node_checks=False),
                FullMappingTester(FaultyHasKey)]
        made = []
        for step in case:
            if step == 0:
                t, want = FullMappingTester(Good, node_checks=False), []
            elif step == 1:
                t, want = FullMappingTester(FaultyGet, node_checks=False), \
                    ['get']
            elif step == 2:
                t, want = FullMappingTester(zoo.BaseNode), []
            elif step == 3:
                t, want = FullMappingTester(FaultyHasKey), ['has_key']
            elif step == 4:
                t, want = kept[0], []
            elif step == 5:
                t, want = kept[1], ['has_key']
            else:
                t, want = FullMappingTester(FaultyGet, context=Good(),
                                            node_checks=False), []
            if t in kept and any(t is x for x, _ in made):
                made = [(x, w) for x, w in made if x is not t]
                expect('run', outcome(t.run), ('any',))
                res = t.results
            else:
                if list(t.results):
                    fail('results before the first run: %r', t.results)
                res = run_tester(t, 'step %d of %r' % (step, case))
            if self.verdict(res) != want:
                fail('step %d of %r: %r failed, expected %r', step, case,
                     self.verdict(res), want)
            made.append((t, want))
            # earlier results stay
            for x, w in made:
                if self.verdict(x.results) != w \
                        or list(x.results) != CONTRACT:
                    fail('results of an earlier run changed: %r', x.results)
        if FullMappingTester.iface_contract != CONTRACT:
            fail('contract changed: %r', FullMappingTester.iface_contract)


class Patterns(Cases):
    """Contracts of other interfaces, all patterns of outcomes."""
    name = 'patterns of outcomes'

    def __init__(self, size):
        self.size = size

    def cases(self):
        for n in range(self.size + 1):
            for pattern in itertools.product(range(4), repeat=n):
                for direct in (False, True):
                    yield (pattern, direct)

    def run(self, case):
        pattern, direct = case
        excs = [None, ValueError('boom'), AssertionError(), KeyError('k')]
        names = ['f%d' % (n * 3 % 7) for n in range(len(pattern))]
        log = []

        class Tester(BaseTester):
            iface_contract = list(names)
            direct_error = direct

        def test(name, n):
            def run(self):
                log.append((name, self.context, self.class_))
                if excs[n] is not None:
                    raise excs[n]
            return run
        for name, n in zip(names, pattern):
            setattr(Tester, 'test_' + name, test(name, n))
        bad = [i for i, n in enumerate(pattern) if n]
        for given in (None, odict([('a', 1)])):
            del log[:]
            t = Tester(odict, context=given)
            out = outcome(t.run)
            want = odict((name, 'failed: %r' % (excs[n],) if n else 'OK')
                         for name, n in zip(names, pattern))
            if direct and bad:
                if out != ('raise', excs[pattern[bad[0]]]):
                    fail('%r: %r instead of the exception of the first '
                         'failing test', case, out)
                want = odict(list(want.items())[:bad[0]])
                ran = names[:bad[0] + 1]
            else:
                expect('run', out, ('any',))
                ran = names
            if [x[0] for x in log] != ran:
                fail('%r: ran %r, expected %r', case, log, ran)
            if list(t.results.items()) != list(want.items()):
                fail('%r: results %r, expected %r', case,
                     list(t.results.items()), list(want.items()))
            for _, ctx, cls in log:
                if cls is not odict or ctx is not t.context or (
                        given is not None and ctx is not given):
                    fail('%r: tested %r of %r', case, ctx, cls)
            if given is None and t.context.__class__ is not odict:
                fail('%r: context %r', case, t.context)

        class Lacking(Tester):
            iface_contract = list(names) + ['nosuch']
        t = Lacking(odict)
        out = outcome(t.run)
        if not (direct and bad):
            expect('run of a tester lacking a test', out,
                   ('raise', ContractError))


class Wherefrom(Cases):
    """Where functions come from."""
    name = 'origin of functions'

    def cases(self):
        for where in itertools.product(range(3), repeat=4):
            yield where

    def run(self, where):
        class A(object):
            pass

        class B(A):
            pass
        by = [A, B, None]
        names = ['f', 'h', 'g', 'e']
        for name, w in zip(names, where):
            if by[w] is not None:
                setattr(by[w], name, lambda self: None)

        class Tester(BaseTester):
            iface_contract = names
        got = Tester(B).wherefrom.split('\n')
        want = sorted('%s: %s' % (name, by[w].__name__ if by[w] is not None
                                  else 'function not found on object')
                      for name, w in zip(names, where))
        if got != want:
            fail('%r: wherefrom is %r, expected %r', where, got, want)


def classify(task, case, msg):
    """Faults the tester is known not to look at."""
    if not (msg.endswith('passes all tests') or msg.endswith(
            'raises nothing if errors are to be raised directly')):
        return None
    if isinstance(task, Single):
        m, fault = task.fault(case[1])
        return 'missed:%s:%s' % (m, getattr(
            fault, '__name__', 'missing').replace(' ', '-'))
    if isinstance(task, Pairs):
        keys = ['missed:%s:%s' % (
            FAULTS[k][0], CATALOGUE[FAULTS[k][0]][FAULTS[k][1]]
            .__name__.replace(' ', '-')) for k in case[1:]]
        return keys[0] if all(k in MISSED for k in keys) else None
    return None


def tasks(tier):
    quick = tier == 'quick'
    return [Correct(), Single(), Pairs(1),
            Sequences(3 if quick else 4), Patterns(4 if quick else 5),
            Wherefrom()]
