"""C27: references resolve in a fresh interpreter."""
from mc import env
from mc.core import Cases
from mc.core import fail
import atexit
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

TECHNIQUE = ('complete enumeration of package depths, nesting depths, kinds of '
             'references and sets of modules imported before; each combination '
             'is serialized in one process and deserialized by the real code '
             'in another one which has imported nothing but the serializer')
LEVEL_NOTE = (
    'Package depth 0 to 3 (4), nesting depth 0 to 2 (3), classes, functions, '
    'methods and trees; nothing, any package above, a sibling or the module '
    'itself imported before; names redefined while running; standard library modules; names which do not '
    'resolve. Fresh interpreters are forks of a process holding only '
    'node.serializer.')
ASSUMPTIONS = ['a module binds its classes and functions by their own names',
               'no class or module is hidden for good by a rebound name']

PYCACHE = None


def pycache():
    """Directory for compiled modules, shared by all interpreters of a run."""
    global PYCACHE
    if PYCACHE is None:
        PYCACHE = tempfile.mkdtemp(prefix='c27-pyc-')
        owner = os.getpid()

        def remove():
            if os.getpid() == owner:
                shutil.rmtree(PYCACHE, ignore_errors=True)
        atexit.register(remove)
    return PYCACHE


DRIVER = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'fresh.py')

MODULE = '''
from node.base import AttributedNode
from node.base import OrderedNode


def function():
    pass


class Plain(object):

    def method(self):
        pass

    @staticmethod
    def static():
        pass

    class Nested(object):

        def method(self):
            pass

        class Deeper(object):

            class Deepest(object):
                pass


class ANode(AttributedNode):

    class NNode(AttributedNode):

        class DNode(AttributedNode):
            pass


class Other(OrderedNode):
    pass
'''

WALK = '''
import sys
def walk(module, qualname):
    ob = sys.modules[module]
    for name in qualname.split('.'):
        ob = getattr(ob, name)
    return ob
'''


class Fresh(Cases):
    chunk = 2

    def jobs(self, files, jobs):
        """Run jobs with a scratch directory of modules."""
        scratch = tempfile.mkdtemp(dir=pycache())
        try:
            for path, text in files.items():
                full = os.path.join(scratch, path)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, 'w') as f:
                    f.write(text)
            environ = dict(os.environ)
            environ.pop('PYTHONPATH', None)
            p = subprocess.run(
                [sys.executable, '-W', 'ignore', DRIVER, env.REPO_SRC,
                 scratch, pycache()],
                input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, timeout=120, env=environ)
        finally:
            shutil.rmtree(scratch)
        if p.returncode:
            fail('importing the serializer alone failed: %s',
                 p.stderr.decode()[-1500:])
        return json.loads(p.stdout.decode())


def package(depth, extra=None):
    """Files of a package nest and the dotted name of its innermost module."""
    files = {}
    parts = []
    for d in range(depth):
        parts.append('vp%s' % d)
        files['/'.join(parts + ['__init__.py'])] = MODULE
        files['/'.join(parts + ['sibling.py'])] = MODULE
    parts.append('vpmod')
    files['/'.join(parts) + '.py'] = MODULE
    return files, '.'.join(parts)


REFS = ['function', 'Plain', 'Plain.method', 'Plain.static', 'Plain.Nested',
        'Plain.Nested.method', 'Plain.Nested.Deeper',
        'Plain.Nested.Deeper.Deepest', 'ANode', 'ANode.NNode',
        'ANode.NNode.DNode', 'Other']


class References(Fresh):
    """Classes, functions and methods."""
    name = 'references'

    def __init__(self, depth):
        self.depth = depth

    def cases(self):
        for depth in range(self.depth + 1):
            for where in ('module', 'package', 'sibling'):
                if where != 'module' and not depth:
                    continue
                for i in range(2 * depth + 2):
                    for group in range(3):
                        yield (depth, where, i, group)

    def run(self, case):
        depth, where, which, group = case
        refs = REFS[group::3]
        files, mod = package(depth)
        above = mod.split('.')
        above = ['.'.join(above[:i]) for i in range(1, len(above))]
        if where == 'package':
            mod = mod.rsplit('.', 1)[0]
        elif where == 'sibling':
            mod = mod.rsplit('.', 1)[0] + '.sibling'
        before = ([[], [mod]] + [[a] for a in above] +
                  [[a + '.sibling'] for a in above])[which]
        texts = self.jobs(files, [([mod], WALK + '''
from node.serializer import serialize
result = [serialize(walk(%r, q)) for q in %r]
''' % (mod, refs))])[0]
        if texts[0] != 'ok':
            fail('serializing %s of %s: %s', refs, mod, texts)
        jobs = []
        what = []
        for n, (ref, text) in enumerate(zip(refs, texts[1])):
            forms = ['bare', 'list', 'dict', 'resolve', 'bare']
            n = (n + which + group) % 4
            forms = forms[n:] + forms[:n]
            what.append((ref, forms))
            jobs.append((before, WALK + '''
from node.serializer import deserialize, NodeDecoder
text = %r
got = []
for form in %r:
    if form == 'bare':
        got += [deserialize(text)]
    elif form == 'list':
        got += deserialize('[' + text + ', ' + text + ']')
    elif form == 'dict':
        got += list(deserialize('{"a": {"k": ' + text + '}}')['a'].values())
    else:
        got += [NodeDecoder().resolve(%r)]
want = walk(%r, %r)
result = [x is want for x in got]
''' % (text, forms, mod + '.' + ref, mod, ref)))
        for w, res in zip(what, self.jobs(files, jobs)):
            if res != ['ok', [True] * 6]:
                fail('%s of %s with %s imported before (%s): %s', w[0], mod,
                     before or 'nothing', w[1], res[1:])


class Trees(Fresh):
    """Trees of nodes of classes from several modules."""
    name = 'trees'

    def __init__(self, depth):
        self.depth = depth

    def cases(self):
        for depth in range(1, self.depth + 1):
            for combo in itertools.product(range(3), repeat=2):
                yield (depth,) + combo

    def run(self, case):
        depth, i, j = case
        files, mod = package(depth)
        mods = [mod, mod.rsplit('.', 1)[0], mod.rsplit('.', 1)[0] + '.sibling']
        one, two = mods[i], mods[j]
        build = WALK + '''
import %s
import %s
from node.serializer import serialize
from node.utils import UNSET
import uuid
root = walk(%r, 'ANode')(name='root')
root['a'] = walk(%r, 'ANode.NNode')()
root['a']['b'] = walk(%r, 'ANode.NNode.DNode')()
root['c'] = walk(%r, 'ANode')()
root.attrs['cls'] = walk(%r, 'Plain.Nested')
root['a'].attrs['fn'] = [walk(%r, 'function'), {'k': walk(%r, 'Other')}]
root['a'].attrs['node'] = walk(%r, 'Other')(name='o')
root['c'].attrs['v'] = [UNSET, uuid.UUID(int=5), 1, None]
result = [serialize(root), serialize([root['a']['b'], root['c']])]
''' % (one, two, one, two, one, two, two, two, one, one)
        res = self.jobs(files, [([], build)])[0]
        if res[0] != 'ok':
            fail('serializing: %s', res)
        tree, listed = res[1]
        before = [[], ['vp0'], [one], [two], ['node.base'], ['vp0.sibling']]
        jobs = []
        for imports in before:
            jobs.append((imports, WALK + '''
from node.serializer import deserialize
root = deserialize(%r)
from node.utils import UNSET
import uuid
o, t = %r, %r
a, c = root['a'], root['c']
result = [
    list(root.keys()) == ['a', 'c'], list(a.keys()) == ['b'],
    type(root) is walk(o, 'ANode'), type(a) is walk(t, 'ANode.NNode'),
    type(a['b']) is walk(o, 'ANode.NNode.DNode'), type(c) is walk(t, 'ANode'),
    root.attrs['cls'] is walk(t, 'Plain.Nested'),
    a.attrs['fn'][0] is walk(t, 'function'),
    a.attrs['fn'][1]['k'] is walk(o, 'Other'),
    type(a.attrs['node']) is walk(o, 'Other'), a.attrs['node'].name == 'node',
    c.attrs['v'] == [UNSET, uuid.UUID(int=5), 1, None],
    c.attrs['v'][0] is UNSET, a['b'].path == ['root', 'a', 'b'],
    root.name == 'root', a.__parent__ is root, root.__parent__ is None,
]
''' % (tree, one, two)))
            jobs.append((imports, WALK + '''
from node.serializer import deserialize
from node.base import OrderedNode
top = OrderedNode(name='top')
got = deserialize(%r, root=top)
result = [list(top.keys()) == ['b', 'c'], got[0] is top['b'],
          type(got[0]) is walk(%r, 'ANode.NNode.DNode'),
          type(got[1]) is walk(%r, 'ANode')]
''' % (listed, one, two)))
        for w, res in zip([b for b in before for x in 'ab'],
                          self.jobs(files, jobs)):
            if res[0] != 'ok' or not all(res[1]):
                fail('%s and %s with %s imported before: %s', one, two,
                     w or 'nothing', res)


STDLIB = [
    ('xml.dom.minidom', 'Document'), ('xml.etree.ElementTree', 'Element'),
    ('concurrent.futures.thread', 'ThreadPoolExecutor'),
    ('email.mime.text', 'MIMEText'), ('logging.handlers', 'QueueHandler'),
    ('unittest.mock', 'Mock'), ('collections', 'OrderedDict'),
    ('json.decoder', 'JSONDecoder'), ('wsgiref.headers', 'Headers'),
    ('datetime', 'datetime'), ('calendar', 'Calendar.itermonthdates'),
    ('builtins', 'dict'), ('decimal', 'Decimal'), ('ast', 'NodeVisitor'),
    ('zope.interface.adapter', 'AdapterRegistry'),
    ('node.behaviors.cache', 'Cache'), ('node.testing.env', 'MyNode'),
    ('node.tests', 'NodeTestCase'), ('node.locking', 'TreeLock'),
    ('odict.pyodict', 'odict'), ('plumber.behavior', 'Behavior'),
]


class Installed(Fresh):
    """Modules there anyway."""
    name = 'installed modules'

    def cases(self):
        for i in range(0, len(STDLIB), 5):
            yield (i,)

    def run(self, case):
        refs = STDLIB[case[0]:case[0] + 5]
        texts = self.jobs({}, [([m], WALK + '''
from node.serializer import serialize
result = serialize([walk(%r, %r)])
''' % (m, q)) for m, q in refs])
        jobs = []
        for (m, q), t in zip(refs, texts):
            if t[0] != 'ok':
                fail('serializing %s of %s: %s', q, m, t)
            for imports in ([], [m.split('.')[0]], [m]):
                jobs.append((imports, WALK + '''
from node.serializer import deserialize
got = deserialize(%r)[0]
import %s
result = got is walk(%r, %r)
''' % (t[1], m, m, q)))
        for i, res in enumerate(self.jobs({}, jobs)):
            if res != ['ok', True]:
                fail('%s of %s: %s', refs[i // 3][1], refs[i // 3][0], res)


class Hidden(Fresh):
    """Attributes of packages named like their modules, and module level
    surprises."""
    name = 'hidden modules'
    INITS = [
        ('', 'nothing'),
        ('from vq.mod import mod\n', 'function hides module'),
        ('from vq.mod import Klass as mod\n', 'class hides module'),
        ('from vq.sub.mod import mod\n', 'other function hides module'),
        ('sub = None\n', 'value hides package'),
        ('from vq.mod import Klass\n', 'name exported'),
        ('import vq.sub.mod\n', 'submodule imported'),
        ('from vq.mod import mod\nmod.__module__ = "vq"\n',
         'function exported'),
        ('from vq.mod import mod\nfrom vq.sub import mod as sub\n',
         'modules exported'),
    ]
    TEXT = ('def mod():\n    pass\n\n\nclass Klass(object):\n    class In'
            '(object):\n        class Most(object):\n            pass\n')
    REFS = [('vq.mod', 'mod'), ('vq.mod', 'Klass'), ('vq.mod', 'Klass.In'),
            ('vq.mod', 'Klass.In.Most'), ('vq.sub.mod', 'Klass'),
            ('vq.sub.mod', 'Klass.In'), ('vq.sub.mod', 'mod'),
            # as seen from the package
            ('vq', 'mod'), ('vq', 'sub')]

    def cases(self):
        for i in range(len(self.INITS)):
            yield (i,)

    def run(self, case):
        init, what = self.INITS[case[0]]
        files = {'vq/__init__.py': init, 'vq/mod.py': self.TEXT,
                 'vq/sub/__init__.py': '', 'vq/sub/mod.py': self.TEXT}
        jobs = []
        names = []
        for m, q in self.REFS:
            for imports in ([], ['vq'], ['vq.mod'], ['vq.sub'],
                            ['vq.sub.mod']):
                names.append((m, q, imports))
                jobs.append((imports, WALK + '''
from node.serializer import deserialize
got = deserialize('{"__ob__": "%s.%s"}')
want = walk(%r, %r)
result = got is want or repr(got)
''' % (m, q, m, q)))
        for w, res in zip(names, self.jobs(files, jobs)):
            if what == 'value hides package' and res[0] == 'raise':
                continue
            if res != ['ok', True]:
                fail('%s, %s of %s with %s imported before: %s', what, w[1],
                     w[0], w[2] or 'nothing', res)


class Computed(Fresh):
    """Names which modules and classes compute when asked for them."""
    name = 'computed names'
    TEXT = """
class Meta(type):
    def __getattr__(cls, name):
        if name == 'Asked':
            return hidden
        raise AttributeError(name)

    @property
    def Property(cls):
        return hidden


class Descriptor(object):
    def __get__(self, ob, cls):
        return hidden


Klass = Meta('Klass', (object,), {'Got': Descriptor()})


class hidden(object):
    class In(object):
        pass


for _n in ('Asked', 'Property', 'Got'):
    hidden.__qualname__ = 'Klass.' + _n
"""
    MODULES = {
        'plain': '',
        'getattr': """
def __getattr__(name):
    if name == 'Lazy':
        from vq.impl import Lazy
        return Lazy
    raise AttributeError(name)
""",
        'getattr-dir': """
def __dir__():
    return []


def __getattr__(name):
    if name == 'Lazy':
        import vq.impl
        return vq.impl.Lazy
    raise AttributeError(name)
""",
        'object': """
import sys


class Module(object):
    __name__ = __name__
    __path__ = globals().get('__path__')
    __spec__ = __spec__

    @property
    def Lazy(self):
        import vq.impl
        return vq.impl.Lazy


sys.modules[__name__] = Module()
""",
        'typed': """
import sys
import types


class Module(types.ModuleType):

    @property
    def Lazy(self):
        import vq.impl
        return vq.impl.Lazy


sys.modules[__name__].__class__ = Module
""",
    }

    def cases(self):
        for package in sorted(self.MODULES):
            for module in sorted(self.MODULES):
                yield (package, module)

    def run(self, case):
        package, module = case
        files = {'vq/__init__.py': self.MODULES[package],
                 'vq/mod.py': self.MODULES[module],
                 'vq/impl.py': 'class Lazy(object):\n    class In(object):'
                 '\n        pass\n',
                 'vq/klass.py': self.TEXT}
        refs = [('vq.klass', 'Klass.' + n) for n in (
            'Asked', 'Property', 'Got', 'Asked.In', 'Got.In')]
        for mod, kind in (('vq', package), ('vq.mod', module)):
            if kind != 'plain':
                refs += [(mod, 'Lazy'), (mod, 'Lazy.In')]
        jobs, names = [], []
        for m, q in refs:
            for imports in ([], ['vq'], ['vq.mod'], ['vq.impl', 'vq.klass']):
                names.append((m, q, imports))
                jobs.append((imports, WALK + """
from node.serializer import deserialize
got = deserialize('{"__ob__": "%s.%s"}')
want = walk(%r, %r)
result = got is want and got.__name__ in ('Lazy', 'In', 'hidden')
try:
    deserialize('{"__ob__": "%s.Nothing"}')
    result = 'got another one'
except Exception:
    pass
""" % (m, q, m, q, m)))
        for w, res in zip(names, self.jobs(files, jobs)):
            if res != ['ok', True]:
                fail('%s of %s with %s imported before: %s', w[1], w[0],
                     w[2] or 'nothing', res)


class Wrong(Fresh):
    """Names which do not resolve raise; whatever was tried, right names
    resolve afterwards."""
    name = 'names which do not resolve'
    NAMES = ['nosuchmodule', 'nosuchmodule.X', 'vp0.nosuch', 'vp0.nosuch.X',
             'vp0.vpmod.nosuch', 'vp0.vpmod.Plain.nosuch',
             'vp0.vpmod.Plain.Nested.nosuch', 'vp0.vpmod.Nested',
             'vp0.vpmod.Plain.Deeper', 'vp0.Plain.nosuch', 'vpmod.Plain',
             'vp0.vpmod.function.<locals>.inner', 'vp0.vpmod.<lambda>',
             'vp0.vpmod.plain', 'vp0.broken.X', 'vp0.broken', 'Plain', '',
             '.', 'vp0.', '.vp0', 'vp0..vpmod', 'vp0.vpmod.', 'node.Node',
             'node.base.nosuch', 'node.nosuch.Node', 'base.Node',
             'vp0.sibling.vpmod', 'vp0.vpmod.Plain.method.nosuch',
             'vp0.sibling.sibling', 'vp0.vpmod.vpmod.Plain', 'vp0.halfway.X',
             'vp0.vpmod.Plain.<locals>.Nested', 'vp0.vpmod.<locals>.function',
             'vp0.vpmod.function.<locals>', 'vp0.vpmod.<locals>.Plain.Nested',
             'vp0.vpmod.<class>.Plain', 'vp0.vpmod:Plain', 'vp0/vpmod.Plain',
             ' vp0.vpmod.Plain', 'vp0.vpmod.Plain ', 'vp0.vpmod. Plain',
             'vp0.vpmod.Plain()', 'vp0.vpmod.PLAIN', '__main__.vp0.Plain',
             'vp0.vpmod.Plain._Plain__Nested', 'vp0-vpmod.Plain',
             'vp0.VPMOD.Plain', 'dict', 'len', 'object', 'Exception',
             'dict.fromkeys', 'print', 'None', 'True', '__builtins__',
             'Node', 'UNSET', 'uuid4', 'serialize', 'NodeDecoder.decode',
             'self', 'name', 'OrderedNode']

    def cases(self):
        for i in range(0, len(self.NAMES), 4):
            yield (i,)

    def run(self, case):
        names = self.NAMES[case[0]:case[0] + 4]
        files, mod = package(1)
        files['vp0/broken.py'] = 'import nosuchmodule\n\n\nclass X:\n    pass\n'
        files['vp0/halfway.py'] = 'raise ValueError("no")\n'
        jobs = []
        what = []
        for name in names:
            for imports in ([], ['vp0'], ['vp0.vpmod', 'node.base'],
                            ['vp0.sibling']):
                for form in ('ob', 'node', 'in attr'):
                    what.append((name, imports, form))
                    jobs.append((imports, WALK + '''
from node.serializer import deserialize
import json
name, form = %r, %r
if form == 'ob':
    data = {'__ob__': name}
elif form == 'node':
    data = {'__node__': {'class': name, 'name': 'x'}}
else:
    data = {'__node__': {'class': 'vp0.vpmod.ANode', 'name': 'x',
                         'attrs': {'k': [{'__ob__': name}]}}}
try:
    got = deserialize(json.dumps(data))
    result = 'got %%r' %% (got,)
except Exception as e:
    # ... and what resolves still does
    deserialize('{"__ob__": "vp0.vpmod.Plain.Nested"}')
    result = True
''' % (name, form)))
        for w, res in zip(what, self.jobs(files, jobs)):
            if res != ['ok', True]:
                fail('%r (%s) with %s imported before: %s', w[0], w[2],
                     w[1] or 'nothing', res)


class Sequence(Fresh):
    """Several references one after another in one interpreter."""
    name = 'sequences'

    def __init__(self, length):
        self.length = length

    def cases(self):
        for i in range(5):
            yield (i,)

    def run(self, case):
        files, mod = package(2)
        refs = [('vp0', 'Plain'), ('vp0.vp1', 'Plain.Nested'),
                ('vp0.vp1.vpmod', 'ANode'), ('vp0.sibling', 'function'),
                ('vp0.vp1.sibling', 'Other')]
        jobs = []
        seqs = []
        for rest in itertools.product(range(5), repeat=self.length - 1):
            seq = (case[0],) + rest
            if len(set(seq)) < len(seq):
                continue
            seqs.append(seq)
            jobs.append(([], WALK + '''
from node.serializer import deserialize
result = []
for m, q in %r:
    got = deserialize('{"__ob__": "' + m + '.' + q + '"}')
    result.append(got is walk(m, q))
''' % ([refs[i] for i in seq],)))
        for seq, res in zip(seqs, self.jobs(files, jobs)):
            if res != ['ok', [True] * len(seq)]:
                fail('%s: %s', [refs[i] for i in seq], res)


class Redefined(Fresh):
    """What a reference stands for changes while the interpreter runs."""
    name = 'redefined'

    CHANGES = {
        'class rebound': """
class Plain(object):
    class Nested(object):
        class Deeper(object):
            pass
    def method(self):
        pass
class ANode(OrderedNode):
    class NNode(AttributedNode):
        pass
def function():
    return 2
where.Plain, where.ANode, where.function = Plain, ANode, function
""",
        'nested rebound': """
where.Plain.Nested = type('Nested', (object,), {'Deeper': int})
where.ANode.NNode = type('NNode', (OrderedNode,), {})
where.Plain.method = lambda self: 1
""",
        'module reloaded': """
import importlib
importlib.reload(where)
""",
        'module replaced': """
import types
new = types.ModuleType(mod)
new.__file__ = where.__file__
exec(open(where.__file__).read(), vars(new))
sys.modules[mod] = new
if '.' in mod:
    setattr(sys.modules[mod.rpartition('.')[0]], mod.rpartition('.')[2], new)
""",
        'module imported again': """
del sys.modules[mod]
if '.' in mod:
    delattr(sys.modules[mod.rpartition('.')[0]], mod.rpartition('.')[2])
__import__(mod)
""",
        'gone': """
del where.Plain, where.ANode, where.function
""",
        'came back': """
kept = where.Plain, where.ANode, where.function
del where.Plain, where.ANode, where.function
see()
where.Plain, where.ANode, where.function = kept
""",
        'missing before': """
class Plain(where.Plain):
    class Late(object):
        pass
where.Plain.Nested.Late = where.Late = Plain
""",
    }
    REFS = ['Plain', 'function', 'Plain.Nested', 'Plain.Nested.Deeper',
            'Plain.method', 'ANode', 'ANode.NNode', 'Late',
            'Plain.Nested.Late']

    def __init__(self, length):
        self.length = length

    def cases(self):
        for depth in range(3):
            for seq in itertools.product(sorted(self.CHANGES),
                                         repeat=self.length):
                yield (depth,) + seq

    def run(self, case):
        files, mod = package(case[0])
        jobs, what = [], []
        for before in ('nothing', 'resolved', 'nodes'):
            what.append(before)
            jobs.append(([mod], WALK + """
from node.base import AttributedNode, OrderedNode
from node.serializer import deserialize, serialize
import json
mod, refs, before = %r, %r, %r
result = True

def see():
    global result
    for ref in refs:
        name = mod + '.' + ref
        try:
            want = walk(mod, ref)
        except AttributeError:
            want = None
        forms = [{'__ob__': name}]
        if before == 'nodes' and ref.endswith('Node'):
            forms.append({'__node__': {'class': name, 'name': 'n'}})
        for form in forms:
            try:
                got = deserialize(json.dumps(form))
            except (AttributeError, ImportError):
                got = None
            if '__node__' in form:
                got = got and type(got)
            if got is not want and result is True:
                result = '%%s gives %%r, not %%r' %% (form, got, want)

for change in %r:
    where = sys.modules[mod]
    if before != 'nothing':
        see()
    try:
        exec(change)
    except AttributeError:
        # has gone before
        pass
see()
""" % (mod, self.REFS, before, [self.CHANGES[c] for c in case[1:]])))
        for before, res in zip(what, self.jobs(files, jobs)):
            if res != ['ok', True]:
                fail('%s (%s before): %s', case, before, res)


OWN = ['node.base', 'node.behaviors', 'node.events', 'node.interfaces',
       'node.locking', 'node.serializer', 'node.utils', 'node.compat',
       'node.parts', 'node.testing', 'node.testing.base', 'node.testing.env',
       'node.testing.fullmapping', 'node.behaviors.alias',
       'node.behaviors.attributes', 'node.behaviors.cache',
       'node.behaviors.common', 'node.behaviors.events',
       'node.behaviors.fallback', 'node.behaviors.lifecycle',
       'node.behaviors.mapping', 'node.behaviors.nodespace',
       'node.behaviors.nodify', 'node.behaviors.order',
       'node.behaviors.reference', 'node.behaviors.storage']


class Own(Fresh):
    """Every class and function of node itself, and trees of its classes."""
    name = 'node'
    chunk = 1

    def __init__(self, nbefore):
        self.nbefore = nbefore

    def cases(self):
        for i in range(len(OWN)):
            yield (i,)

    def references(self, module):
        """(reference, module, qualified name) of what a module defines."""
        out = self.jobs({}, [([module], '''
import inspect
import json
import sys
from node.serializer import serialize
result = []
module = %r
for name, ob in sorted(vars(sys.modules[module]).items()):
    if not inspect.isclass(ob) and not inspect.isfunction(ob):
        continue
    if ob.__module__ != module:
        continue
    text = serialize(ob)
    where = sys.modules[ob.__module__]
    for part in ob.__qualname__.split('.'):
        where = getattr(where, part, None)
    if where is ob:
        # else no name leads to it
        result.append((text, ob.__module__, ob.__qualname__))
''' % module)])[0]
        return out

    def run(self, case):
        module = OWN[case[0]]
        if not self.available(module):
            return 'none'
        out = self.references(module)
        if out[0] != 'ok':
            # importing it alone fails: see what is in it otherwise
            out = self.references_after(module)
        jobs, what = [], []
        befores = [[], ['node.base']]
        if self.nbefore > 1:
            befores += [[m] for m in OWN if m not in sum(befores, [])]
        for text, mod, qualname in out[1]:
            for before in befores:
                what.append((text, before))
                jobs.append((before, WALK + '''
from node.serializer import deserialize
got = deserialize(%r)
result = got is walk(%r, %r)
''' % (text, mod, qualname)))
        for (text, before), res in zip(what, self.jobs({}, jobs)):
            if res != ['ok', True]:
                fail('%s with %s imported before: %s', text,
                     before or 'nothing', res)
        return '%d references' % len(out[1])

    def available(self, module):
        path = os.path.join(env.REPO_SRC, *module.split('.'))
        return os.path.exists(path + '.py') or os.path.exists(
            os.path.join(path, '__init__.py'))

    def references_after(self, module):
        out = self.jobs({}, [(['node.base', module], 'result = True')])[0]
        if out[0] != 'ok':
            fail('%s cannot be imported: %s', module, out)
        fail('%s can only be imported after others', module)


def tasks(tier):
    quick = tier == 'quick'
    pycache()
    return [References(2 if quick else 5), Trees(2 if quick else 4),
            Installed(), Hidden(), Computed(), Wrong(), Sequence(3 if quick else 5),
            Redefined(1 if quick else 2),
            Own(1 if quick else 2)]
