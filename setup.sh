#!/bin/bash
# Builds the I/O shim once, to see that the tool chain works (every check builds its own copy as well).
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
from sim import shim
import os, numpy, scipy
so = shim.build()
print('shim', os.path.getsize(so), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
import shutil
shutil.rmtree(os.path.dirname(so))
P
