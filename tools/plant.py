#!/usr/bin/env python3
"""Plant bugs: plant.py DEFS.py [ID...]

DEFS.py holds BUGS, a list of dicts: id, property, edits [(file below src/node,
old, new)], needs, breaks, demo (python source, exits non-zero on failure).
Each bug is applied to a scratch copy of /repo, the baseline tests and the demo
are run with and without it, and it is written to /verif/seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plant'
PY = '/opt/venv/bin/python'


def run(cmd, cwd, **env):
    """Run with the scratch copy in the place of /repo."""
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    cmd = ['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd %s && '
           'exec "$@"' % (SCRATCH, cwd), 'x'] + cmd
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(repo):
    """Names of failing baseline tests."""
    rc, out = run([PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p',
                   'no:cacheprovider', 'src/node/tests',
                   '--deselect',
                   'src/node/tests/test_testing.py::TestFullmapping::'
                   'test___setitem__'], '/repo')
    return rc, out.strip().splitlines()[-3:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for bug in ns['BUGS']:
        if only and bug['id'] not in only:
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', SCRATCH])
        demo = os.path.join(SCRATCH, '..', 'plant_demo')
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(textwrap.dedent(bug['demo']).lstrip())
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n'
                    'here="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONDONTWRITEBYTECODE=1\n'
                    'exec timeout 120 /opt/venv/bin/python '
                    '"$here/demo.py"\n')
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        rc0, out0 = run(['bash', os.path.join(demo, 'demo.sh')], '/repo')
        ok = True
        for name, old, new in bug['edits']:
            path = os.path.join(SCRATCH, 'src/node', name)
            text = open(path).read()
            if text.count(old) != 1:
                print(bug['id'], 'text found %d times in %s: %r' % (
                    text.count(old), name, old))
                ok = False
                break
            open(path, 'w').write(text.replace(old, new))
        if not ok:
            continue
        rct, outt = tests(SCRATCH)
        rc1, out1 = run(['bash', os.path.join(demo, 'demo.sh')], '/repo')
        patch = subprocess.check_output(['git', 'diff'], cwd=SCRATCH)
        good = rc0 == 0 and rc1 != 0 and rct == 0
        print('%s (%s): demo base %d, patched %d, tests %d -> %s' % (
            bug['id'], bug['property'], rc0, rc1, rct,
            'KEPT' if good else 'REJECTED'))
        if not good:
            if rct:
                print('   tests:', outt)
            if rc0:
                print('   base demo:', out0[-600:])
            continue
        # which checks see it
        dest = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(demo, dest)
        open(os.path.join(dest, 'patch.diff'), 'wb').write(patch)
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        for prop in bug.get('checks', [bug['property']]):
            rc, out = run(['./check', prop], VERIF,
                          VERIF_EVIDENCE='/tmp/plant_ev')
            lines = [x for x in out.splitlines()
                     if not x.startswith('KNOWN')]
            print('   %s: %s' % (prop, 'CAUGHT' if rc == 1 else
                                 'MISSED (%d)' % rc),
                  ' | '.join(x.strip()[:150] for x in lines[1:4])
                  if rc else '')
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
