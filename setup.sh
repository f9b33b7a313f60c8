#!/bin/bash
# Nothing to compile: the checks import copt from /repo's working tree.  Verify that the interpreter is usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import numpy, scipy, sklearn
from vlib import core, gen, ref, prob, sanit
print('ok', sys.version.split()[0], numpy.__version__, scipy.__version__)"
