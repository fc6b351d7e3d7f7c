#!/bin/bash
# Nothing is compiled: the checks run /repo's working tree (editable install) directly.
# This only verifies that the interpreter, hypothesis and the package are importable.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
mkdir -p "$here/evidence"
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '$here')
from vf import hypo; hypo.install()
import hypothesis, quantify_scheduler
print('hypothesis', hypothesis.__version__, 'quantify_scheduler', quantify_scheduler.__file__)
"
