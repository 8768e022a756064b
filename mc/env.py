"""Environment control: imports bluedynamics/node from /repo's working tree and
owns the sources of nondeterminism the code under test uses (uuids, locks,
hash seed, module level state).  Must be imported before anything of ``node``.
"""
import os
import sys
import uuid

REPO_SRC = os.environ.get('VERIF_NODE_SRC', '/repo/src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if REPO_SRC != '/repo/src':
    # development only: explore another tree
    sys.path[:] = [p for p in sys.path if p != '/repo/src']
    for _m in [m for m in sys.modules if m.split('.')[0] == 'node']:
        del sys.modules[_m]
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

# --------------------------------------------------------------------------
# uuids: a counter, reset for every history, so replays see the same uuids
# --------------------------------------------------------------------------
_BASE = 0x1000_0000_0000_4000_8000_0000_0000_0000
_real_uuid4 = uuid.uuid4
_n = [0]


def _uuid4():
    _n[0] += 1
    return uuid.UUID(int=_BASE + (_n[0] << 70) + _n[0])


def reset_uuids():
    _n[0] = 0


uuid.uuid4 = _uuid4

# --------------------------------------------------------------------------
# locks: controlled ones, which behave like real ones outside the scheduler
# --------------------------------------------------------------------------
from mc import sched  # noqa: E402
sched.install()

import node  # noqa: E402
_where = os.path.realpath(node.__file__)
assert _where.startswith(os.path.realpath(REPO_SRC) + os.sep), _where

import node.base  # noqa: E402
import node.behaviors  # noqa: E402
import node.events  # noqa: E402
import node.locking  # noqa: E402
import node.serializer  # noqa: E402
import node.testing  # noqa: E402
import node.utils  # noqa: E402
