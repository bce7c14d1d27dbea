#!/bin/sh
# Nothing is compiled: the checks are Python and import the code from /repo.
# This only makes sure that the simulator and the code load.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" && NUMBA_DISABLE_JIT=1 PYTHONPATH="$here:/repo" "$py" -B -c 'import sim.driver, openptv_python.track'
