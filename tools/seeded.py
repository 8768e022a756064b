#!/usr/bin/env python3
"""seeded.py [-a] [ID...]: run checks against the planted bugs.

Each patch is applied to a scratch copy of /repo/src; the check of the bug's
property (with -a: every check) runs on the copy.  Prints one line per bug.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    every = '-a' in args
    only = [a for a in args if a != '-a']
    base = os.path.join(VERIF, 'seeded')
    checks = [c['property'] for c in json.load(
        open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    for bug in sorted(os.listdir(base)):
        if only and bug not in only:
            continue
        meta = json.load(open(os.path.join(base, bug, 'meta.json')))
        scratch = tempfile.mkdtemp(prefix='seeded-')
        try:
            subprocess.check_call(['cp', '-a', '/repo/src', scratch])
            p = subprocess.run(['git', 'apply', os.path.join(
                base, bug, 'patch.diff')], cwd=scratch)
            if p.returncode:
                print(bug, 'does not apply')
                continue
            hits = []
            for check in (checks if every else [meta['property']]):
                p = subprocess.run(
                    [os.path.join(VERIF, 'check'), check],
                    env=dict(os.environ,
                             VERIF_NODE_SRC=os.path.join(scratch, 'src'),
                             VERIF_EVIDENCE=os.path.join(scratch, 'ev')),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 1:
                    hits.append(check)
                elif p.returncode:
                    hits.append('%s:exit%d' % (check, p.returncode))
            print('%-28s %s %s: %s' % (
                bug, meta['property'],
                'CAUGHT' if meta['property'] in hits else 'MISSED',
                ' '.join(hits)), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
