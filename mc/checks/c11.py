"""C11: aliasers translate losslessly in both directions."""
import itertools
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import fail
from mc.core import outcome
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from odict import odict

TECHNIQUE = ('complete enumeration of aliaser configurations x keys on the '
             'real aliasers against reference translations, and explicit-state '
             'BFS over histories of dictionary and affix edits')
LEVEL_NOTE = (
    'Every string up to the length over the alphabet plus odd strings, every '
    'affix up to length 2 plus odd ones, None and empty, all chains of up to 3 '
    'members and nested chains, every small one-to-one dictionary, strict and '
    'not, edited at any time. Trusts the reference translations.')
ASSUMPTIONS = ['keys are strings',
               'dictionaries are one-to-one; without strictness, keys passed '
               'through are not listed on the other side']

MISS = object()


# ------------------------------------------------------------------ reference
def ref_alias(spec, key):
    kind = spec[0]
    if kind == 'p':
        return (spec[1] or '') + key
    if kind == 's':
        return key + (spec[1] or '')
    if kind == 'ps':
        return (spec[1] or '') + key + (spec[2] or '')
    if kind == 'd':
        for a, k in spec[1]:
            if k == key:
                return a
        return MISS if spec[2] else key
    for sub in spec[1]:
        key = ref_alias(sub, key)
        if key is MISS:
            return MISS
    return key


def ref_unalias(spec, key):
    kind = spec[0]
    if kind == 'p':
        p = spec[1] or ''
        return key[len(p):] if key[:len(p)] == p else MISS
    if kind == 's':
        s = spec[1] or ''
        n = len(key) - len(s)
        return key[:n] if n >= 0 and key[n:] == s else MISS
    if kind == 'ps':
        key = ref_unalias(('s', spec[2]), key)
        return key if key is MISS else ref_unalias(('p', spec[1]), key)
    if kind == 'd':
        for a, k in spec[1]:
            if a == key:
                return k
        return MISS if spec[2] else key
    for sub in reversed(spec[1]):
        key = ref_unalias(sub, key)
        if key is MISS:
            return MISS
    return key


def build(spec, form=0):
    kind = spec[0]
    if kind == 'p':
        if spec[1] is None and form:
            return PrefixAliaser()
        return PrefixAliaser(spec[1]) if form else PrefixAliaser(
            prefix=spec[1])
    if kind == 's':
        if spec[1] is None and form:
            return SuffixAliaser()
        return SuffixAliaser(spec[1]) if form else SuffixAliaser(
            suffix=spec[1])
    if kind == 'ps':
        if form:
            return PrefixSuffixAliaser(spec[1], spec[2])
        return PrefixSuffixAliaser(prefix=spec[1], suffix=spec[2])
    if kind == 'd':
        data = spec[1]
        if form == 1:
            data = odict(data)
        elif form == 2:
            data = list(data)
        if spec[2] and form == 1:
            return DictAliaser(data)
        return DictAliaser(data, strict=spec[2])
    subs = [build(x, form) for x in spec[1]]
    return AliaserChain(tuple(subs) if form else subs)


def probe(aliaser, spec, key, what=''):
    """Compare both directions for one key."""
    n = 0
    for way, ref, back, rback in (
            ('alias', ref_alias, 'unalias', ref_unalias),
            ('unalias', ref_unalias, 'alias', ref_alias)):
        want = ref(spec, key)
        out = outcome(lambda: getattr(aliaser, way)(key))
        if want is MISS:
            if out[0] != 'raise' or not isinstance(out[1], KeyError):
                fail('%s%r %s(%r) gave %r, expected KeyError', what, spec, way,
                     key, out)
            continue
        if out[0] == 'raise' or out[1] != want or type(out[1]) is not str:
            fail('%s%r %s(%r) gave %r, expected %r', what, spec, way, key, out,
                 want)
        n += 1
        # and back, wherever the dictionaries involved are unambiguous
        if rback(spec, want) == key:
            again = outcome(lambda: getattr(aliaser, back)(out[1]))
            if again != ('ok', key):
                fail('%s%r %s(%s(%r)) gave %r', what, spec, back, way, key,
                     again)
        elif not has_dict(spec):
            fail('%s%r reference is not lossless for %r', what, spec, key)
    return n


def has_dict(spec):
    return spec[0] == 'd' or (
        spec[0] == 'c' and any(has_dict(x) for x in spec[1]))


def strings(alphabet, n):
    out = []
    for k in range(n + 1):
        out += [''.join(x) for x in itertools.product(alphabet, repeat=k)]
    return out


ODD = ['-', '.', '*', 'a.b', '^a', '$', ' ', 'a b', '\n', '\x00', 'ä', 'aä',
       '\u20ac', '\U0001f600', '0', '__x__', 'None', '{}', '%s', '\\', '/a',
       'A', 'aab' * 7, 'ab' * 40]
AFFIX_ODD = [None, '-', 'pre-', '.', '.*', 'ä', '\U0001f600', '__', ' ', '\n',
             '%s', '{}', '\\', '0', 'None', '^', '$', 'ab' * 20]


class Affixes(Cases):
    name = 'affixes'

    def __init__(self, n, m):
        self.keys = strings('ab', n) + ODD
        self.affixes = strings('ab', m) + AFFIX_ODD

    def cases(self):
        for a in self.affixes:
            yield ('p', a)
            yield ('s', a)
            for b in self.affixes:
                yield ('ps', a, b)

    def run(self, spec):
        n = 0
        for form in (0, 1):
            aliaser = build(spec, form)
            keys = list(self.keys)
            for x in spec[1:]:
                x = x or ''
                keys += [x, x + x, x + 'a', 'a' + x, x[1:], x[:-1], x + x[:-1],
                         x[1:] + x, x + 'q' + x, x.upper(), x[:-1] + 'q',
                         'q' + x[1:]]
            if len(spec) == 3:
                p, s = spec[1] or '', spec[2] or ''
                keys += [p + s, p + 'a' + s, s + 'a' + p, p + p + s + s,
                         p + s[1:], p[:-1] + s]
            for key in keys:
                n += probe(aliaser, spec, key)
        return spec[0]


class Chains(Cases):

    def __init__(self, name, members, n, keys, nested):
        self.name = 'chains-' + name
        self.members = members
        self.n = n
        self.keys = keys
        self.nested = nested

    def cases(self):
        for k in range(self.n + 1):
            for seq in itertools.product(self.members, repeat=k):
                yield ('c', seq)
                if self.nested and k > 1:
                    for i in range(k):
                        for j in range(i + 1, k + 1):
                            yield ('c', seq[:i] + (('c', seq[i:j]),) + seq[j:])

    def run(self, spec):
        n = 0
        for form in (0, 1):
            aliaser = build(spec, form)
            for key in self.keys:
                n += probe(aliaser, spec, key)
                a = ref_alias(spec, key)
                if a is not MISS:
                    n += probe(aliaser, spec, a)
                    n += probe(aliaser, spec, a + 'x')
        return '%d members, %s' % (len(spec[1]), 'translated' if n else
                                   'all refused')


class Dicts(Cases):
    name = 'dictionaries'

    def __init__(self, words, n):
        self.words = words
        self.n = n

    def cases(self):
        for k in range(self.n + 1):
            for al in itertools.permutations(self.words, k):
                for real in itertools.permutations(self.words, k):
                    for strict in (True, False):
                        yield ('d', tuple(zip(al, real)), strict)

    def run(self, spec):
        for form in (0, 1, 2):
            aliaser = build(spec, form)
            for key in list(self.words) + ODD:
                probe(aliaser, spec, key)
            # listed pairs translate to each other
            for a, k in spec[1]:
                if aliaser.alias(k) != a or aliaser.unalias(a) != k:
                    fail('%r does not translate %r to %r', spec, k, a)
            if list(aliaser.items()) != list(spec[1]):
                fail('translating changed %r to %r', spec, aliaser.items())
        return 'strict' if spec[2] else 'passing'


class Edits(Machine):
    """Aliasers whose dictionary and affixes are edited while in use."""

    def __init__(self, depth, words):
        self.name = 'edited'
        self.depth = depth
        self.words = words

    def fresh(self):
        d = DictAliaser()
        p = PrefixAliaser()
        s = SuffixAliaser()
        return State(d=d, p=p, s=s, chain=AliaserChain([d, p, s]),
                     items=[], strict=True, order=['d', 'p', 's'], prefix=None, suffix=None)

    def ops(self, s):
        for a in self.words:
            for k in self.words:
                if any(y == k and x != a for x, y in s.items):
                    continue
                yield ('set', a, k)
            yield ('del', a)
        yield ('strict', not s.strict)
        for x in ('', 'a', 'ab', None):
            yield ('prefix', x)
            yield ('suffix', x)
        yield ('clear',)
        for how in ('reverse', 'drop', 'more', 'less', 'replace'):
            yield ('chain', how)

    def apply(self, s, op):
        kind = op[0]
        if kind == 'set':
            s.d[op[1]] = op[2]
            for i, (a, _) in enumerate(s.items):
                if a == op[1]:
                    s.items[i] = (a, op[2])
                    break
            else:
                s.items.append((op[1], op[2]))
        elif kind == 'del':
            have = any(a == op[1] for a, _ in s.items)
            out = outcome(lambda: s.d.__delitem__(op[1]))
            if have != (out[0] == 'ok'):
                fail('del %r: %r', op[1], out)
            s.items = [x for x in s.items if x[0] != op[1]]
        elif kind == 'clear':
            s.d.clear()
            s.items = []
        elif kind == 'chain':
            members = {'d': s.d, 'p': s.p, 's': s.s}
            chain = s.chain.chain
            if op[1] == 'reverse':
                s.order = s.order[::-1]
                chain.reverse()
            elif op[1] == 'drop':
                s.order = s.order[1:]
                del chain[:1]
            elif op[1] == 'more':
                if len(s.order) > 3:
                    return 'full'
                s.order = s.order + ['p']
                chain.append(s.p)
            elif op[1] == 'less':
                s.order = s.order[:-1]
                del chain[-1:]
            else:
                s.order = ['s', 'p']
                s.chain.chain = [members[x] for x in s.order]
        elif kind == 'strict':
            s.d.strict = s.strict = op[1]
        elif kind == 'prefix':
            s.p.prefix = s.prefix = op[1]
        else:
            s.s.suffix = s.suffix = op[1]
        return kind

    def check(self, s):
        d = ('d', tuple(s.items), s.strict)
        p = ('p', s.prefix)
        x = ('s', s.suffix)
        c = ('c', tuple({'d': d, 'p': p, 's': x}[o] for o in s.order))
        for key in self.words + ['', 'x', 'a', 'ab', 'ax', 'xa', 'abxab']:
            probe(s.d, d, key)
            probe(s.p, p, key)
            probe(s.s, x, key)
            probe(s.chain, c, key)
            a = ref_alias(c, key)
            if a is not MISS:
                probe(s.chain, c, a)


MEMBERS = [('p', 'a'), ('p', ''), ('p', None), ('p', 'ab'), ('s', 'a'),
           ('s', ''), ('s', None), ('s', 'ba'), ('ps', 'a', 'b'),
           ('ps', None, 'a'), ('ps', '', ''), ('ps', 'b', None),
           ('d', (('a', 'b'), ('b', 'a')), True),
           ('d', (('aa', 'a'),), False), ('d', (('x', ''), ('', 'x')), True),
           ('d', (), False), ('d', (), True)]
SMALL = [('p', 'a'), ('s', 'a'), ('p', 'ba'), ('s', None),
         ('ps', 'a', 'ab'), ('d', (('a', 'b'), ('b', 'a')), False)]


def tasks(tier):
    q = tier == 'quick'
    return [
        Affixes(4 if q else 7, 2 if q else 3),
        Chains('all', MEMBERS, 2 if q else 3, strings('ab', 2 if q else 3)
               + ['x', 'ä', 'aa-b'], True),
        Chains('deep', SMALL, 3 if q else 5, strings('ab', 2) + ['x'], True),
        Dicts(['a', 'b', '', 'ä'] if q else ['a', 'b', '', 'ä', '0'], 3),
        Edits(3 if q else 4, ['a', 'x', '']),
    ]
