#!/bin/bash
# Offline set-up: nothing is built; check that the interpreter, the code under test and the stand-in load.
here=$(cd "$(dirname "$0")" && pwd); cd "$here"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
mkdir -p evidence out
exec /opt/venv/bin/python -c "
from mon import env
import numpy, scipy, pylibxc, CADMium
print('setup ok', numpy.__version__, scipy.__version__, pylibxc.__file__, CADMium.__file__)"
