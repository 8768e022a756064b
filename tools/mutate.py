#!/usr/bin/env python3
"""Mutation campaign: which small changes pass the tests and all checks?

mutate.py OUTDIR [-j N] [--only FILE-SUBSTRING] [--ops OP,...] [--every]

Every mutant of src/node (tests and testing excluded) that passes the
repository's tests is given to the checks, the likely ones first, until one
reports a violation.  Survivors are written to OUTDIR/survivors.txt.
"""
import argparse
import ast
import copy
import hashlib
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
LIKELY = {
    'alias': '11 12', 'attributes': '10 32 25 08 17', 'cache': '13 14 06',
    'common': '15 16 29 04 32 03 02 10 13', 'behaviors/events': '18 19 20 22',
    'fallback': '21 22', 'lifecycle': '17 19 22 03', 'mapping': '01 34 28',
    'nodespace': '09 10 02', 'nodify': '31 28 08 32 02',
    'order': '05 02 03', 'reference': '06 07 08 29 03 04', 'storage': '01 14',
    'node/events': '18 19', 'locking': '23 24', 'serializer': '25 26 27',
    'utils': '02 30 32 33 35 11 31', 'base': '04 05 10 06 02 01 03',
}
ALL = ['%02d' % i for i in range(1, 37)]


class Mut(object):

    def __init__(self, tree):
        self.tree = tree
        self.out = []        # (description, new tree)

    def add(self, op, path, fn):
        t = copy.deepcopy(self.tree)
        node, parent = self.find(t, path)
        new = fn(node, parent)
        if new is False:
            return
        ast.fix_missing_locations(t)
        try:
            src = ast.unparse(t)
            compile(src, 'x', 'exec')
        except Exception:
            return
        self.out.append((op, getattr(node, 'lineno', 0), src))

    def find(self, t, path):
        node, parent = t, None
        for field, i in path:
            parent = node
            node = getattr(node, field)
            if i is not None:
                node = node[i]
        return node, parent

    def walk(self, node=None, path=()):
        node = self.tree if node is None else node
        self.visit(node, path)
        for field, value in ast.iter_fields(node):
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        self.walk(v, path + ((field, i),))
            elif isinstance(value, ast.AST):
                self.walk(value, path + ((field, None),))

    def replace(self, path, new):
        def fn(node, parent):
            field, i = path[-1]
            if i is None:
                setattr(parent, field, new(node))
            else:
                getattr(parent, field)[i] = new(node)
        return fn

    def visit(self, node, path):
        if not path:
            return
        R = lambda op, new: self.add(op, path, self.replace(path, new))
        field, idx = path[-1]
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            swaps = {ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq],
                     ast.Is: [ast.IsNot, ast.Eq],
                     ast.IsNot: [ast.Is, ast.NotEq],
                     ast.In: [ast.NotIn], ast.NotIn: [ast.In],
                     ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt],
                     ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt]}
            for o in swaps.get(type(node.ops[0]), ()):
                def new(n, o=o):
                    n.ops = [o()]
                    return n
                R('cmp-%s' % o.__name__, new)
            if isinstance(node.ops[0], (ast.Is, ast.Eq)):
                R('falsy', lambda n: ast.UnaryOp(ast.Not(), n.left))
            if isinstance(node.ops[0], (ast.IsNot, ast.NotEq)):
                R('truthy', lambda n: n.left)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            def neg(n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                return n
            R('negate', neg)
            for c in (True, False):
                def const(n, c=c):
                    n.test = ast.Constant(c)
                    return n
                if not (isinstance(node, ast.While) and c):
                    R('always-%s' % c, const)
        if isinstance(node, ast.BoolOp):
            def flip(n):
                n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
                return n
            R('boolop', flip)
            for i in range(len(node.values)):
                def drop(n, i=i):
                    vals = n.values[:i] + n.values[i + 1:]
                    return vals[0] if len(vals) == 1 else ast.BoolOp(
                        n.op, vals)
                R('drop-operand', drop)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            R('drop-not', lambda n: n.operand)
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                             ast.Delete, ast.Return, ast.Continue, ast.Break,
                             ast.For, ast.With, ast.If, ast.Try,
                             ast.FunctionDef)) and field in (
                                 'body', 'orelse', 'finalbody'):
            doc = isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Constant)
            if not doc:
                R('delete-stmt', lambda n: ast.Pass())
                # swap with next
                def swap(n, parent, field=field, i=idx):
                    body = getattr(parent, field)
                    if i + 1 >= len(body) or isinstance(
                            n, (ast.FunctionDef, ast.Raise, ast.Return)):
                        return False
                    body[i], body[i + 1] = body[i + 1], body[i]
                self.add('swap-stmt', path, swap)
        if isinstance(node, (ast.For, ast.With, ast.Try)) \
                and field in ('body', 'orelse', 'finalbody'):
            def unwrap(n, parent, field=field, i=idx):
                getattr(parent, field)[i:i + 1] = n.body + getattr(
                    n, 'finalbody', [])
            self.add('unwrap', path, unwrap)
        if isinstance(node, ast.For):
            def brk(n):
                n.body = n.body + [ast.Break()]
                return n
            R('first-only', brk)
            R('iter-list', lambda n: (setattr(n, 'iter', ast.Call(
                ast.Name('list', ast.Load()), [n.iter], [])), n)[1])
            R('iter-reversed', lambda n: (setattr(n, 'iter', ast.Call(
                ast.Name('reversed', ast.Load()), [ast.Call(
                    ast.Name('list', ast.Load()), [n.iter], [])], [])), n)[1])
        if isinstance(node, ast.Return) and node.value is not None:
            R('return-none', lambda n: ast.Return(None))
        if isinstance(node, ast.ExceptHandler):
            if node.type is not None:
                R('except-all', lambda n: (setattr(
                    n, 'type', ast.Name('Exception', ast.Load())), n)[1])
                R('except-other', lambda n: (setattr(
                    n, 'type', ast.Name('ZeroDivisionError', ast.Load())),
                    n)[1])
                if isinstance(node.type, ast.Tuple):
                    for i in range(len(node.type.elts)):
                        R('except-drop', lambda n, i=i: (
                            n.type.elts.pop(i), n)[1])
            R('except-pass', lambda n: (setattr(n, 'body', [ast.Pass()]),
                                        n)[1])
        if isinstance(node, ast.Raise) and node.exc is not None:
            R('raise-other', lambda n: ast.Raise(ast.Call(
                ast.Name('RuntimeError', ast.Load()), [], []), None))
        if isinstance(node, ast.Constant):
            v = node.value
            stmt_doc = field == 'value' and False
            if v is True or v is False:
                R('const', lambda n: ast.Constant(not n.value))
            elif isinstance(v, int):
                R('const', lambda n: ast.Constant(n.value + 1))
                R('const', lambda n: ast.Constant(n.value - 1))
            elif v is None:
                R('const', lambda n: ast.Constant(''))
            elif isinstance(v, str) and len(v) < 30 and not stmt_doc:
                R('const', lambda n: ast.Constant(n.value + 'x'))
        if isinstance(node, ast.Call):
            for i in range(len(node.args)):
                R('drop-arg', lambda n, i=i: (n.args.pop(i), n)[1])
            for i in range(len(node.keywords)):
                R('drop-kw', lambda n, i=i: (n.keywords.pop(i), n)[1])
            if len(node.args) == 2:
                R('swap-args', lambda n: (n.args.reverse(), n)[1])
            if len(node.args) == 1 and not node.keywords:
                R('no-call', lambda n: n.args[0])
            if isinstance(node.func, ast.Name) and node.func.id == 'isinstance' \
                    and len(node.args) == 2:
                R('exact-type', lambda n: ast.Compare(ast.Call(
                    ast.Name('type', ast.Load()), [n.args[0]], []),
                    [ast.Is()], [n.args[1]]))
            if isinstance(node.func, ast.Attribute):
                if node.func.attr == 'copy':
                    R('no-copy', lambda n: n.func.value)
                if node.func.attr == 'providedBy':
                    R('provided-true', lambda n: ast.Constant(True))
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for i in range(len(node.decorator_list)):
                R('drop-decorator', lambda n, i=i: (
                    n.decorator_list.pop(i), n)[1])
        if isinstance(node, ast.Attribute) and isinstance(
                node.value, ast.Name) and node.value.id == 'self' \
                and isinstance(node.ctx, (ast.Store, ast.Load)):
            R('class-state', lambda n: (setattr(n, 'value', ast.Call(
                ast.Name('type', ast.Load()), [n.value], [])), n)[1])
        if isinstance(node, ast.Starred):
            pass
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and isinstance(
                getattr(node, 'ctx', ast.Load()), ast.Load):
            for i in range(len(node.elts)):
                R('drop-elt', lambda n, i=i: (n.elts.pop(i), n)[1])
        if isinstance(node, ast.Dict):
            for i in range(len(node.keys)):
                R('drop-item', lambda n, i=i: (
                    n.keys.pop(i), n.values.pop(i), n)[2])
        if isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Slice):
            R('no-slice', lambda n: n.value)
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
            for i, g in enumerate(node.generators):
                if g.ifs:
                    R('drop-filter', lambda n, i=i: (setattr(
                        n.generators[i], 'ifs', []), n)[1])
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            R('binop-left', lambda n: n.left)
            R('binop-right', lambda n: n.right)


def mutants(src):
    m = Mut(ast.parse(src))
    m.walk()
    base = ast.unparse(ast.parse(src))
    seen = {base}
    for op, line, new in m.out:
        if new not in seen:
            seen.add(new)
            yield op, line, new


def diff(a, b):
    import difflib
    return '\n'.join(l for l in difflib.unified_diff(
        ast.unparse(ast.parse(a)).splitlines(), b.splitlines(), lineterm='',
        n=2))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('--all', action='store_true',
                    help='run unlikely checks too')
    ap.add_argument('--tests', action='store_true', help='run tests only')
    args = ap.parse_args()
    os.makedirs(args.out, exist_ok=True)
    log = os.path.join(args.out, 'log.jsonl')
    done = {}
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done[d['id']] = d
    work = []
    root = '/repo/src/node'
    for d, _, fs in os.walk(root):
        if 'test' in d[len(root):]:
            continue
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), root)
            if not f.endswith('.py') or f in (
                    'interfaces.py', 'compat.py', 'parts.py', '__init__.py') \
                    or args.only not in rel:
                continue
            src = open(os.path.join(d, f)).read()
            for op, line, new in mutants(src):
                i = hashlib.sha1((rel + new).encode()).hexdigest()[:10]
                work.append((i, rel, op, line, src, new))
    print(len(work), 'mutants,', sum(w[0] in done for w in work), 'done',
          flush=True)
    slots = queue.Queue()
    for n in range(args.j):
        scratch = os.path.join(args.out, 'w%d' % n)
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree('/repo', scratch, symlinks=True)
        slots.put(scratch)

    def one(w):
        i, rel, op, line, src, new = w
        if i in done:
            r = done[i]['result']
            if r == 'passes':
                if args.tests:
                    return
            elif r != 'SURVIVED' or not args.all:
                return
        scratch = slots.get()
        try:
            path = os.path.join(scratch, 'src/node', rel)
            with open(path, 'w') as f:
                f.write(new)
            rec = {'id': i, 'file': rel, 'op': op, 'line': line}
            cmd = ['unshare', '-m', 'bash', '-c',
                   'mount --bind %s /repo && cd /repo && exec timeout 120 %s '
                   '-m pytest -q -x --no-header -p no:cacheprovider '
                   'src/node/tests --deselect src/node/tests/test_testing.py'
                   '::TestFullmapping::test___setitem__' % (scratch, PY)]
            p = None if i in done else subprocess.run(cmd, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL,
                               env=dict(os.environ,
                                        PYTHONDONTWRITEBYTECODE='1'))
            if p is not None and p.returncode:
                rec['result'] = 'tests'
            elif args.tests:
                rec['result'] = 'passes'
            else:
                likely = []
                for k, v in LIKELY.items():
                    if k in 'node/' + rel:
                        likely += [c for c in v.split() if c not in likely]
                rest = [c for c in ALL if c not in likely
                        and c not in ('23', '24', '22', '34')] \
                    if args.all else []
                rec['result'] = 'SURVIVED'
                for c in likely + rest:
                    p = subprocess.run(
                        ['timeout', '600', os.path.join(VERIF, 'check'),
                         'C' + c],
                        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                        env=dict(os.environ, VERIF_WORKERS='1',
                                 VERIF_NODE_SRC=os.path.join(scratch, 'src'),
                                 VERIF_EVIDENCE=scratch + '-ev'))
                    if p.returncode == 1:
                        rec['result'] = 'C' + c
                        break
                    if p.returncode:
                        rec['result'] = 'C%s exit %d' % (c, p.returncode)
                        break
            with open(path, 'w') as f:
                f.write(src)
            if rec['result'] == 'SURVIVED' or 'exit' in rec['result']:
                rec['diff'] = diff(src, new)
            with open(log, 'a') as f:
                f.write(json.dumps(rec) + '\n')
        finally:
            slots.put(scratch)

    with ThreadPoolExecutor(args.j) as ex:
        list(ex.map(one, work))
    last = {}
    for l in open(log):
        d = json.loads(l)
        last[d['id']] = d
    count = {}
    with open(os.path.join(args.out, 'survivors.txt'), 'w') as f:
        for d in last.values():
            r = d['result']
            count[r] = count.get(r, 0) + 1
            if r == 'SURVIVED' or 'exit' in r:
                f.write('%s %s:%d %s %s\n%s\n\n' % (
                    d['id'], d['file'], d['line'], d['op'], r, d['diff']))
    print(sorted(count.items(), key=lambda kv: -kv[1]))


if __name__ == '__main__':
    main()
