"""Runs jobs in interpreters which have imported nothing but the serializer.

Reads a JSON list of jobs from stdin, executes each in a forked child and writes
the list of results.  A job is (imports, code); the code runs with ``result``
to be set to something JSON serializable.
"""
import os
import sys

src, scratch, sys.pycache_prefix = sys.argv[1:4]
sys.path[:] = [p for p in sys.path
               if p not in ('', os.path.dirname(os.path.abspath(__file__)))]
if src != '/repo/src':
    # development only: another tree
    sys.path[:] = [p for p in sys.path if p != '/repo/src']
    for m in [m for m in sys.modules if m.split('.')[0] == 'node']:
        del sys.modules[m]
if src not in sys.path:
    sys.path.insert(0, src)
sys.path.append(scratch)
sys.dont_write_bytecode = False

import node.serializer  # noqa: E402, F401


def main():
    import json
    import select
    import signal
    jobs = json.loads(sys.stdin.read())
    results = []
    for imports, code in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            try:
                ns = {}
                for name in imports:
                    __import__(name)
                exec(code, ns)
                out = ['ok', ns['result']]
            except BaseException as e:
                out = ['raise', type(e).__name__, str(e)[:300],
                       [c.__name__ for c in type(e).__mro__]]
            try:
                os.write(w, json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            ready = select.select([r], [], [], 10)[0]
            if not ready:
                os.kill(pid, signal.SIGKILL)
                data = json.dumps(['hang']).encode()
                break
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        results.append(json.loads(data.decode() or '["died"]'))
    sys.stdout.write(json.dumps(results))


main()
