"""C30: string codec on nested data."""
import array
import io
import itertools
import re
import uuid
from collections import ChainMap
from collections import UserDict
from collections import UserList
from collections import deque
from types import MappingProxyType
from mc import zoo
from mc.core import Cases
from mc.core import fail
from mc.core import outcome
from node.interfaces import INode
from node.utils import StrCodec
from node.utils import AttributeAccess
from node.utils import UNSET
from node.utils import decode
from node.utils import encode
from odict import odict

TECHNIQUE = ('complete enumeration of nested structures up to a depth and '
             'width on the real codec against a reference translation')
LEVEL_NOTE = (
    'Every structure of lists, tuples, dictionaries and nodes up to depth 2 '
    '(thorough: 3) and width 2 over text, decodable and undecodable bytes and '
    'other values, for utf-8, latin-1, ascii and utf-16, soft and strict; 30 '
    'kinds of collections and values which stay what they are. '
    'Trusts the reference translation.')
ASSUMPTIONS = ['texts are encodable',
               'keys of one dictionary do not fall together by translation',
               'sequence types can be built from an iterable']

BAD = b'\xe4'


class Obj(object):
    """Neither container nor text."""


class ListSub(list):
    pass


class TupleSub(tuple):
    pass


CHARS = []
for c in (u'\ufeffa', u'\ufeff', u'\u2028', u'\U0001f600', u'a\u0308', u'\xa0',
          u'\ufffd', u'\x7f', u' a ', u'\xdf'):
    CHARS += [c, c.encode('utf-8')]
CHARS += [b'a\x00b', b'\xff\xfe', b'\xfe\xffa\x00', b'\xef\xbb\xbf\xff', b'a\xff',
          b'\xed\xa0\x80', b'\xc0\x80', b' ']
# every first byte, on its own and followed
LEADS = [bytes([i]) + rest for i in range(128, 256)
         for rest in (b'', b'a', b'\x80')]
OTHER = Obj()
ATOMS = ['', 'ab', 'ä', b'', b'ab', b'\xc3\xa4', BAD, 1, None, True, 1.5,
         OTHER, '€', 'a\x00b', '\n'] + CHARS
FEW = ['ä', b'\xc3\xa4', BAD, 1]
KEYS = ['k', b'k', b'\xc3\xa4', 'ä', BAD, 0, None, ('ä', b'x')]


# structures are descriptions, so cases can be printed and rebuilt
def build(d):
    kind = d[0]
    if kind == 'atom':
        return d[1]
    if kind == 'list':
        return [build(x) for x in d[1]]
    if kind == 'lists':
        return ListSub(build(x) for x in d[1])
    if kind == 'tuple':
        return tuple(build(x) for x in d[1])
    if kind == 'tuples':
        return TupleSub(build(x) for x in d[1])
    if kind == 'dict':
        return dict((k, build(x)) for k, x in d[1])
    if kind == 'odict':
        return odict((k, build(x)) for k, x in d[1])
    if kind == 'node':
        n = zoo.OdictValues(name='n')
        for k, x in d[1]:
            n[k] = build(x)
        return n
    if kind == 'stock':
        n = zoo.Node(name='n')
        n.attrs['hidden'] = b'attribute'
        for k, x in d[1]:
            n[k] = build(('stock', ()))
        return n
    raise AssertionError(d)


def ref(x, way, enc, soft):
    """Reference translation; raises UnicodeDecodeError if strict."""
    if isinstance(x, (list, tuple)):
        return x.__class__([ref(i, way, enc, soft) for i in x])
    if isinstance(x, dict):
        return dict((ref(k, way, enc, soft), ref(v, way, enc, soft))
                    for k, v in x.items())
    if isinstance(x, bytes):
        try:
            text = x.decode(enc)
        except UnicodeDecodeError:
            if not soft:
                raise
            return x
        return text if way == 'decode' else x
    if isinstance(x, str):
        return x if way == 'decode' else x.encode(enc)
    if INode.providedBy(x):
        return dict((ref(k, way, enc, soft), ref(x[k], way, enc, soft))
                    for k in x)
    return x


def same(a, b):
    """Equal including types, at every depth."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        ka = sorted(((repr(k), k) for k in a), key=lambda x: x[0])
        kb = sorted(((repr(k), k) for k in b), key=lambda x: x[0])
        return [k for k, _ in ka] == [k for k, _ in kb] and all(
            same(a[x[1]], b[y[1]]) for x, y in zip(ka, kb))
    if isinstance(a, (str, bytes, int, float, type(None))):
        return a == b
    return a is b


def freeze(x):
    """Deep description of the input, to see modifications."""
    if isinstance(x, (list, tuple)):
        return (type(x), id(x), [freeze(i) for i in x])
    if isinstance(x, dict) or INode.providedBy(x):
        return (type(x), id(x), [(repr(k), freeze(x[k])) for k in x])
    return (type(x), repr(x))


def shared(a, b):
    """Mutable containers of the result belong to the result."""
    out = []

    def collect(x, into):
        if isinstance(x, (list, dict)) or INode.providedBy(x):
            into.append(x)
        if isinstance(x, (list, tuple)):
            for i in x:
                collect(i, into)
        elif isinstance(x, dict) or INode.providedBy(x):
            for k in x:
                collect(x[k], into)
    mine, theirs = [], []
    collect(a, mine)
    collect(b, theirs)
    ids = set(id(x) for x in mine)
    return [x for x in theirs if id(x) in ids] or out


def text_only(d):
    if d[0] == 'atom':
        return not isinstance(d[1], bytes)
    if d[0] == 'stock':
        return False
    if d[0] in ('dict', 'odict', 'node'):
        return all(not isinstance(k, bytes) and not isinstance(k, tuple)
                   and text_only(x) for k, x in d[1])
    return all(text_only(x) for x in d[1])


def sequences(elems, width, kinds):
    for kind in kinds:
        for n in range(width + 1):
            for combo in itertools.product(elems, repeat=n):
                yield (kind, combo)


def mappings(elems, width, kinds, keys):
    for kind in kinds:
        for n in range(width + 1):
            for ks in itertools.permutations(keys, n):
                if kind == 'stock' and not all(
                        isinstance(k, str) for k in ks):
                    continue
                if kind == 'node' and None in ks:
                    continue
                # keys which fall together
                tr = set()
                for k in ks:
                    tr.add(repr(ref(k, 'decode', 'utf-8', True)))
                if len(tr) < len(ks):
                    continue
                if kind == 'stock':
                    yield (kind, tuple((k, ('atom', None)) for k in ks))
                    continue
                for combo in itertools.product(elems, repeat=n):
                    yield (kind, tuple(zip(ks, combo)))


# sets and other collections are values like any other
UNTOUCHED = [
    set([b'a', u'b']), frozenset([b'a']), set(), bytearray(b'a'),
    memoryview(b'a'), array.array('B', b'a'), deque([b'a', u'b']), range(2),
    iter([b'a']), (x for x in [b'a']), {b'a': u'b'}.keys(),
    {b'a': u'b'}.values(), UserDict({b'a': u'b'}), UserList([b'a', u'b']),
    zip([b'a']), map(repr, [b'a']), io.BytesIO(b'a'), object(), Obj, Exception(
        b'a'), uuid.UUID(int=1), 10 ** 30, float('inf'), len, slice(b'a'),
    Ellipsis, UNSET, MappingProxyType({b'a': u'b'}), ChainMap({b'a': u'b'}),
    re.compile(b'a'), zoo.OdictMapping(), zoo.Node, AttributeAccess(
        zoo.OdictValues())]


class Untouched(Cases):
    """Whatever is neither text nor list, tuple, dictionary or node."""
    name = 'untouched'

    def cases(self):
        for n in range(len(UNTOUCHED)):
            for enc, soft in [(None, True), ('utf-8', True),
                              ('utf-8', False), ('ascii', False)]:
                for way in ('encode', 'decode'):
                    for place in ('alone', 'list', 'tuple', 'dict', 'node',
                                  'deep'):
                        yield (n, enc, soft, way, place)

    def run(self, case):
        n, enc, soft, way, place = case
        val = UNTOUCHED[n]
        if enc is None:
            fn = {'encode': encode, 'decode': decode}[way]
        else:
            fn = getattr(StrCodec(encoding=enc, soft=soft), way)
        before = repr(val)
        key = b'k' if way == 'encode' else u'k'
        if place == 'alone':
            got = fn(val)
        elif place == 'list':
            got = fn([1, val, u'x'])[1]
        elif place == 'tuple':
            got = fn((val,))[0]
        elif place == 'dict':
            got = fn({'k': val})[key]
        elif place == 'node':
            node = zoo.OdictValues()
            node['k'] = val
            got = fn(node)[key]
        else:
            got = fn([({'k': [val]},)])[0][0][key][0]
        if got is not val:
            fail('%s of %r gives %r', way, val, got)
        if repr(val) != before:
            fail('%r changed to %r', before, val)


def atoms(x):
    return [('atom', a) for a in x]


class Structures(Cases):

    def __init__(self, name, gen, codecs):
        self.name = 'structures-' + name
        self.gen = gen
        self.codecs = codecs

    def cases(self):
        return self.gen()

    def run(self, d):
        label = d[0]
        for enc, soft in self.codecs:
            label = self.one(d, enc, soft) or label
        return label

    def one(self, d, enc, soft):
        label = None
        if enc is None:
            coders = {'encode': encode, 'decode': decode}
            enc = 'utf-8'
            soft = True
        else:
            codec = StrCodec(encoding=enc, soft=soft)
            coders = {'encode': codec.encode, 'decode': codec.decode}
        for way in ('decode', 'encode'):
            x = build(d)
            before = freeze(x)
            try:
                want = ('ok', ref(x, way, enc, soft))
            except UnicodeDecodeError:
                want = ('raise',)
            except UnicodeEncodeError:
                continue
            out = outcome(coders[way], x)
            if freeze(x) != before:
                fail('%s(%r) modified its argument', way, x)
            if want[0] == 'raise':
                label = 'undecodable'
                if out[0] != 'raise' or not isinstance(
                        out[1], UnicodeDecodeError):
                    fail('strict %s %s(%r) gave %r', enc, way, x, out)
                continue
            if out[0] == 'raise':
                fail('%s(%r) raised %r', way, x, out[1])
            if not same(out[1], want[1]):
                fail('%s %s(%r) gave %r, expected %r', enc, way, x, out[1],
                     want[1])
            both = shared(x, out[1])
            if both:
                fail('%s(%r) result shares %r with its argument', way, x,
                     both[0])
            if way == 'encode' and text_only(d):
                back = outcome(coders['decode'], out[1])
                plain = ref(x, 'decode', enc, True)
                if back[0] != 'ok' or not same(back[1], plain):
                    fail('%s decode(encode(%r)) gave %r', enc, x, back)
        return label


UTF8 = [(None, True), ('utf-8', True), ('utf-8', False)]
ALL = UTF8 + [('latin-1', True), ('latin-1', False), ('ascii', True),
              ('ascii', False)]


def tasks(tier):
    q = tier == 'quick'
    seqs = ('list', 'tuple', 'lists', 'tuples')
    maps = ('dict', 'node', 'odict', 'stock')

    def flat():
        for a in atoms(ATOMS):
            yield a
        for a in atoms(LEADS):
            yield a
            yield ('list', (a,))
            yield ('dict', (('k', a),))
        for x in sequences(atoms(ATOMS), 2, seqs):
            yield x
        for x in mappings(atoms(ATOMS), 1, maps, KEYS):
            yield x
        for x in mappings(atoms(FEW), 1, maps, CHARS):
            yield x
        for x in mappings(atoms(FEW), 2, maps, KEYS):
            yield x

    def inner():
        e = atoms(FEW)
        for x in sequences(e, 1 if q else 2, seqs[:2]):
            yield x
        for x in mappings(e, 1, ('dict', 'node'), ['ä', b'\xc3\xa4', BAD]
                          if not q else [b'\xc3\xa4', BAD]):
            yield x

    def deep():
        e = list(inner()) + atoms(FEW)
        for x in sequences(e, 2, ('list', 'tuple')):
            yield x
        for x in mappings(e, 1, ('dict', 'node', 'odict'), KEYS):
            yield x
        for x in mappings(e, 2, ('dict', 'node'), ['k', b'\xc3\xa4']):
            yield x

    def inner1():
        e = atoms(['ä', b'\xc3\xa4', BAD])
        for kind in ('list', 'tuple'):
            for x in e:
                yield (kind, (x,))
        for kind in ('dict', 'node'):
            for x in e:
                yield (kind, ((b'\xc3\xa4', x),))

    def wrap(es):
        for e in es:
            for kind in ('list', 'tuple'):
                yield (kind, (e,))
                yield (kind, (('atom', 'ä'), e))
            for kind in ('dict', 'node', 'odict'):
                yield (kind, ((b'\xc3\xa4', e),))
                yield (kind, (('k', ('atom', b'x')), (BAD, e)))

    def chains():
        es = list(inner1())
        for n in range(2 if q else 4):
            es = list(wrap(es))
        for e in es:
            yield e

    def texts():
        e = atoms(['', 'ab', 'ä', '€', 1, None])
        for x in e:
            yield x
        for x in sequences(e, 2, ('list', 'tuple')):
            yield x
        for x in mappings(e, 1, ('dict', 'node'), ['k', 'ä']):
            yield x

    return [
        Structures('flat', flat, ALL), Untouched(),
        Structures('deep', deep, UTF8 if not q else UTF8[1:]),
        Structures('chains', chains, UTF8),
        Structures('utf16', texts, [('utf-16', True), ('utf-16', False),
                                    ('utf-32', True)]),
    ]
