#!/bin/bash
# Nothing to build: the checks are pure Python and import /repo/src directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/venv/nocache \
    /opt/venv/bin/python -c 'import odict, plumber, zope.interface'
