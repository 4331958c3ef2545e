#!/bin/bash
# Offline set-up: unpack Hypothesis (property-based testing library) for the
# interpreter that has the dependencies of the code under test.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
W=/opt/veriftools/wheels
if [ ! -d .deps/hypothesis ]; then
  T=$(mktemp -d .deps.XXXXXX)
  if $PY -m pip install -q --no-index --find-links "$W" --no-compile --target "$T" hypothesis >/dev/null 2>&1; then
    if [ -d .deps ]; then rm -rf "$PWD/$T"; else mv "$T" .deps 2>/dev/null || rm -rf "$PWD/$T"; fi
  else
    rm -rf "$PWD/$T"   # run.py then falls back on the tooling venv's copy
  fi
fi
$PY run.py --selftest
